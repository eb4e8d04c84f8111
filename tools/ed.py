import sys
# usage: ed.py file <<< python-literal list of (old,new); keeps CRLF line ends
p=sys.argv[1]; s=open(p,newline='').read(); crlf=s.count('\r\n')*2>s.count('\n')
for old,new in eval(sys.stdin.read()):
    if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
    assert s.count(old)==1,(s.count(old),old)
    s=s.replace(old,new)
open(p,'w',newline='').write(s)
