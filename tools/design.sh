# Regenerates properties.jsonl, MANIFEST.json and DESIGN.md.
cd "$(dirname "$0")/.." && python3 tools/props.py || exit 1
. /opt/vp/support/env.sh
PYTHONPATH=/verif:/repo:/verif/stubs /opt/venv/bin/python tools/design.py
