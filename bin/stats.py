#!/usr/bin/env python3
"""stats.py PID: per-harness symex/solver statistics of the last runs."""
import json,glob,sys,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(f'{R}/.build/kani-{sys.argv[1]}-*/export*.json'))[-int(sys.argv[2]) if len(sys.argv)>2 else -1:]:
  d=json.load(open(f))
  for c in d['cbmc']:
    s=c['cbmc_stats'] or {}
    print(c['harness_id'],{k.replace('runtime_',''):round(v,1) for k,v in s.items() if v})
