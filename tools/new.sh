#!/bin/bash
# new.sh ID PROP PKG  ; reads demo_test.go from stdin up to a line "=====", then the edit python
ID=$1; P=$2; PKG=${3:-mpd}
mkdir -p /verif/seeded/$ID
sed "s/^PKG=mpd/PKG=$PKG/" /tmp/demo.sh > /verif/seeded/$ID/demo.sh; chmod +x /verif/seeded/$ID/demo.sh
cat > /tmp/in.$$
awk '/^=====$/{exit} {print}' /tmp/in.$$ > /verif/seeded/$ID/demo_test.go
(echo 'import sys
def sub(f,a,b,n=1):
    s=open(f).read()
    assert s.count(a)==n,(f,a,s.count(a))
    open(f,"w").write(s.replace(a,b))
'; awk 'c==1{print} /^=====$/{c++}' /tmp/in.$$ | awk '/^=====$/{exit} {print}') > /tmp/edit/$ID.py
awk 'c==2{print} /^=====$/{c++}' /tmp/in.$$ > /tmp/meta.$$
python3 - $ID $P /tmp/meta.$$ <<'PY'
import sys,json
needs,_,what=open(sys.argv[3]).read().strip().partition('\n')
json.dump({"property":sys.argv[2],"needs":needs,"what_it_breaks":what},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
PY
rm -f /tmp/in.$$ /tmp/meta.$$
bash /tmp/mk.sh $ID
