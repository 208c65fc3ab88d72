ed1 () 
{ 
    python3 - "$@" <<'P'
import sys
f,a,b=sys.argv[1:4]; n=int(sys.argv[4]) if len(sys.argv)>4 else 1
s=open(f).read(); assert s.count(a)>=1,(f,a); 
i=-1
for _ in range(n): i=s.index(a,i+1)
open(f,'w').write(s[:i]+b+s[i+len(a):])
P

}
