#!/bin/bash
# dev/show.sh SIM PROP SEED : trace of one run
export GOMAXPROCS=1 GOGC=off
$1 gen $2 $3 /tmp/s.json; $1 replay /tmp/s.json /tmp/o.json trace
python3 - <<'P'
import json,os
r=json.load(open('/tmp/o.json'))
for t in r['trace']:
    if 'client -1' in t and not os.environ.get('AUDIT'): continue
    print(t[:220])
s=json.load(open('/tmp/s.json'))
for p in s['phases']: print(p.get('faults'),p.get('end'),p.get('clock_ms'))
print(s['sched'],s.get('no_vectorizer'),s['lat_min_us'],s['lat_max_us'])
for v in r['violations'] or []: print(v['class'],v['msg'][:300])
P
