#!/bin/bash
# vc_seed.sh PROP|all PATCH...: the deductive leg alone on a scratch copy of /repo with each patch. Development aid.
prop=$1; shift
for p in "$@"; do
  p=$(realpath "$p")
  d=$(mktemp -d /tmp/vcseed.XXXX)
  cp -a /repo/stoqcompiler "$d/"
  (cd "$d" && git init -q . && git apply --include='stoqcompiler/*' "$p") || echo "does not apply"
  echo "== $p"
  pp=$prop; [ "$prop" = own ] && pp=$(python3 -c "import json,os;print(json.load(open(os.path.dirname('$p')+'/meta.json'))['property'])")
  (cd /verif && python3-vt -m vc.main $pp --root "$d" -v 2>&1 | grep -A1 -E "^     (failed|undecided)|out of reach|verifier error|no path" | cut -c1-400)
  rm -rf "$d"
done
