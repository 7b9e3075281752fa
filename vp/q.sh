#!/bin/bash
# q.sh harness params opts...
cd /verif; rm -f /tmp/q.json; bc=$(python3 -c "
import sys; sys.path.insert(0,'vp'); import build; print(build.harness_bc('$1'))"); p=$2; shift 2
/usr/bin/time -f "%es %MKB" build/vpexec $bc --params $p --out /tmp/q.json "$@"; python3 - <<'P'
import json; r=json.load(open('/tmp/q.json'))
print('paths %d+%da+%de instr %d q %d sat %d unk %d st %.1f reach %s %s' % (r['paths'],r['paths_assume'],r['paths_error'],r['instructions'],r['queries'],r['sat'],r['unknown'],r['solver_time'],r['reach'],r['errors'] or ''))
for l,v in r['labels'].items(): print('  ',l,v)
for x in r['reports'][:2]: print('  REP',x['kind'],x['label'],x['where'][:150],[i[:6] for i in x['inputs'][:1]])
P
