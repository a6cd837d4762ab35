#!/bin/bash
# mkseed.sh ID PROPERTY: take the diff of /tmp/seedwt (a worktree copy of /repo) as the patch of a planted change
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff
git -C /tmp/seedwt checkout -q -- .
cat > $d/demo.sh <<'D'
#!/bin/bash
cd "${REPO:-/repo}" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
D
sed -i 's#exec /opt/venv/bin/python -W ignore "$(dirname.*#exec /opt/venv/bin/python -W ignore "$H/demo.py"#; s#^cd #H="$(cd "$(dirname "$0")" \&\& pwd)"\ncd #' $d/demo.sh
cat > $d/demo.py
python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
