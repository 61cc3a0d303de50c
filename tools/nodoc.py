import re,sys
s=open(sys.argv[1]).read()
s=re.sub(r'"""(?:.|\n)*?"""','',s)
lines=[l for l in s.split('\n') if l.strip()]
a,b=(int(sys.argv[2]),int(sys.argv[3])) if len(sys.argv)>2 else (0,10**9)
for i,l in enumerate(lines[a:b]): print(l.rstrip())
