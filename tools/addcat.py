import sys
p="/verif/tools/catalog.py"
s=open(p).read().rstrip()
assert s.endswith("]")
s=s[:-1].rstrip()+"\n"+sys.stdin.read().rstrip()+"\n]\n"
compile(s,p,"exec")
open(p,"w").write(s)
