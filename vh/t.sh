#!/bin/bash
# dev helper: build and run one property's concrete harnesses
cd /verif/vh && cargo build --offline --features async >/tmp/b.log 2>&1 || { grep -E "^error" -A9 /tmp/b.log | head -90; exit 1; }
for p in ${1//,/ }; do ./target/debug/vh run $p ${2:-1} ${3:-8} 3000 /tmp/o.json >/tmp/o.log 2>&1; python3 - <<'EOP'
import json
for s in json.load(open('/tmp/o.json'))['sections']: print(s['name'],s['cases'],s['distinct'],s['exhausted'],s['failure'] and (s['failure']['message'],s['failure']['choices']) or '')
EOP
done
