# ed.sh FILE OLD NEW : unique replacement in /tmp/wt
python3 - "$@" <<'P'
import sys
f,a,b=sys.argv[1:4]; f='/tmp/wt/'+f; s=open(f).read(); assert s.count(a)==1,(f,s.count(a)); open(f,'w').write(s.replace(a,b))
P
