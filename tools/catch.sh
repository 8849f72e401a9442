#!/bin/bash
# catch.sh SEED_ID [PROPERTY ...]: run the checks against a planted bug, in a private mount namespace in which
# /repo and /verif are scratch copies (so several can run at the same time and nothing real changes).
id=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=$(mktemp -d /tmp/catch.XXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a /verif/{checks,lib,spec,run,tools,properties.jsonl,MANIFEST.json} "$w/verif/"; [ -f /verif/known_findings.json ] && cp /verif/known_findings.json "$w/verif/"; mkdir "$w/verif/evidence"
[ "$id" = none ] || git -C "$w/repo" apply $( [ -f "$id" ] && echo "$id" || echo /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; rm -rf "$w"; exit 2; }
unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && for p in $(echo $props); do s=\$(date +%s); VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=\${VERIF_TIER:-quick} timeout 900 ./run \$p > $w/out.\$p 2>&1; rc=\$?; echo \"$id \$p rc=\$rc \$(grep -c '^VIOLATION' $w/out.\$p) violations \$((\$(date +%s)-s))s \$(grep -a '^VIOLATION' $w/out.\$p | head -1 | cut -c1-200)\"; done"
[ -n "$KEEP" ] && { cp "$w"/verif/evidence/replay_* "$w"/out.* "$KEEP"/ 2>/dev/null; }
rm -rf "$w"
