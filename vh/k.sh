#!/bin/bash
# dev helper: run Kani on harnesses matching the filters (T=per-harness timeout)
cd /verif/vh; A=(); for h in "$@"; do A+=(--harness "$h"); done
ulimit -v $((${GB:-5}<<20))
(time CARGO_NET_OFFLINE=true timeout 800 cargo kani --output-format terse -j 8 -Z restrict-vtable -Z unstable-options --harness-timeout ${T:-90}s "${A[@]}" 2>&1) > /tmp/k.log 2>&1
grep -E "^error|^real|^Complete|Failed Checks|VERIFICATION:- F|^Manual|unwinding|Verification failed|[Tt]imed|[Oo]ut of" /tmp/k.log | tail -${TAILN:-60}
python3 - <<'EOP'
import re
cur={};on='0';res={}
for l in open('/tmp/k.log'):
    m=re.match(r'Thread (\d+): ?(.*)',l)
    if m: on=m.group(1); l=m.group(2)
    m=re.match(r'Checking harness (\S+?)\.\.\.',l)
    if m: cur[on]=m.group(1); res[m.group(1)]='?'
    m=re.match(r'Verification Time: ([\d.]+)s',l)
    if m: res[cur[on]]=m.group(1)
for k,v in res.items(): print(k,v)
EOP
