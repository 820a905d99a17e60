#!/bin/bash
# new_seed.sh ID PROPERTY "needs" "what it breaks"  : takes the diff now in /repo's working tree as the
# patch and stdin as demo.rs; leaves /repo clean again
set -e
KIT="$(cd "$(dirname "$0")" && pwd)"; S="/verif/seeded/$1"
REPO="${REPO:-/repo}"
mkdir -p "$S"
git -C "$REPO" diff > "$S/patch.diff"; [ -s "$S/patch.diff" ] || { echo "no diff"; exit 1; }
git -C "$REPO" checkout -- .
cat > "$S/demo.rs"
cp "$KIT/demo.sh" "$KIT/demo.Cargo.toml" "$KIT/demo.Cargo.lock" "$S/"; chmod +x "$S/demo.sh"
rm -rf "$S/spacemath"; cp -a /verif/standin/spacemath "$S/spacemath"; rm -rf "$S/spacemath/target"
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
