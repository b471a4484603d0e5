#!/bin/bash
# mkseed.sh ID < demo body : put demo.sh, demo.py, demo_lib.py into seeded/ID
d=/verif/seeded/$1; mkdir -p $d
cp /verif/tools/demo_lib.py $d/
(echo "from demo_lib import *"; cat) > $d/demo.py
cat > $d/demo.sh <<'X'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" && exec timeout 280 /opt/venv/bin/python -B demo.py
X
