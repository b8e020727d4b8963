# mut.sh module file 'python-expr old' 'new' [pattern]
rm -rf /tmp/mutrepo; mkdir /tmp/mutrepo; cp -a /repo/. /tmp/mutrepo/
python3 - "$2" "$3" "$4" <<'P'
import sys
p='/tmp/mutrepo/'+sys.argv[1]; s=open(p,encoding='latin-1').read(); o=sys.argv[2].encode().decode('unicode_escape'); n=sys.argv[3].encode().decode('unicode_escape')
assert s.count(o)>=1, s.count(o); s=s.replace(o,n,1); open(p,'w',encoding='latin-1').write(s)
P
cd /verif; VERIF_REPO=/tmp/mutrepo W=300 timeout 600 python3-vt /tmp/t1.py $1 "$5" | grep -v "^lemma\|^defin"; rm -rf /tmp/mutrepo
