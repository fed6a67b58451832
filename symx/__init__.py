"""Proxy-based symbolic execution of the real lsst.pipe.base code with z3."""
