#!/bin/bash
# dev.sh <bin> [engine args]: build and explore one harness
cd /verif && python3 - "$1" <<'P'
import sys; sys.path.insert(0,'/verif')
import check
try: check.build_ll(sys.argv[1])
except check.NoAnswer as e:
    import re
    s=str(e); i=s.find('error'); print(s[i:i+1500]); sys.exit(1)
P
[ $? = 0 ] || exit 1
b=$1; shift
SYM_DEPTH=0 target/engine/release/engine target/$b.ll --out target/$b.json --jobs 8 "$@"
python3 - $b <<'P'
import json,sys
o=json.load(open(f'/verif/target/{sys.argv[1]}.json'))
for e in o['entries']:
    print(f"{e['name']:34} {e['wall_s']:6.1f}s paths={e.get('paths',0)} panic={e.get('panic_paths',0)} ins={e.get('instrs',0)} chk={e.get('checks',0)} q={e.get('queries',0)} unk={e.get('unknown_queries',0)} smt={e.get('solver_ms',0)} max={e.get('max_query_ms',0)} forks={e.get('forks',0)} merges={e.get('merges',0)}/{e.get('merge_fail',0)} covers={e['covers']}")
    for k,v in e['inconclusive'].items(): print('    INC',k[:300],v)
    for v in e['violations'][:6]: print('    VIOL',v['msg'],v['inputs'][:30],v['trace'][:260])
print('total',o['wall_s'])
P
