#!/bin/bash
# seed.sh <id> <property> <needs> <breaks>: stdin is demo.py; /tmp/edit.py holds the edit.
d=/verif/seeded/$1; mkdir -p $d; cat > $d/demo.py
cp /verif/tools/seed_common/shim.py $d/
grep -q "util" $d/demo.py && cp /verif/tools/seed_common/util.py $d/
printf '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
python3 /verif/tools/plant.py $1 --edit /tmp/edit.py
