#!/bin/bash
# mk.sh ID PROP NEEDS WHAT: keep the change in $MW (a clone of /repo) with $MW.demo.py as planted bug ID if it is a valid one
set -e
here="$(cd "$(dirname "$0")" && pwd)"; MW=${MW:-/tmp/mw}
id=$1; out=$here/../../seeded/$id; mkdir -p "$out"
git -C "$MW" diff > "$out/patch.diff"; cp "$MW.demo.py" "$out/demo.py"; cp "$here/demolib.py" "$out/"
cat > "$out/demo.sh" <<'D'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
D
python3 - "$out/meta.json" "$2" "$3" "$4" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
(cd "$MW" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider pyspectral/tests 2>&1 | tail -1)
(cd /repo && bash "$out/demo.sh") && echo "base ok" || { echo "DEMO FAILS ON BASE"; exit 1; }
(cd "$MW" && bash "$out/demo.sh") && { echo "DEMO PASSES WITH PATCH"; exit 1; } || echo "patched fails, good"
PYSPECTRAL_REPO=$MW "$here/../../check" "$2" | cut -c1-250 | head -5
