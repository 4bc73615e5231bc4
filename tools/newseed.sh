#!/bin/bash
# tools/newseed.sh ID: store the uncommitted change of /tmp/wt as seeded/ID/patch.diff and restore /tmp/wt
id=$1; d=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id; mkdir -p "$d"
git -C /tmp/wt diff > "$d/patch.diff"; git -C /tmp/wt checkout -q -- .
cat > "$d/demo.sh" <<'D'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
export TMPDIR=$work PYTHONPATH=$PWD/src
python "$here/demo.py" "$work"
D
