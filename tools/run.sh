# run.sh script mode  (REPO=, B=budget seconds, S=seed)
cd /verif
export VERIF_HARNESS=/verif/harness VERIF_REPO=${REPO:-/repo} PYTHONDONTWRITEBYTECODE=1
case $1 in
jy_*) JYTHONPATH=/opt/jylib PYTHONHASHSEED=0 HOME=/root LANG=C.UTF-8 timeout 200 jython -B harness/$1 ${S:-1} ${B:-4} $2;;
*) timeout 200 /opt/venv/bin/python -W ignore harness/$1 ${S:-1} ${B:-4} $2;;
esac
