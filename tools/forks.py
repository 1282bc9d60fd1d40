#!/usr/bin/env python3
"""forks.py ID harness case-index [limit]: where paths fork (development aid; run with /opt/venv/bin/python from /verif)."""
import collections
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import run
run.setup_paths()
prop, name, index = sys.argv[1], sys.argv[2], int(sys.argv[3])
run.start_worker(prop, 'quick', 1)
e = run.STATE['engine']
seen = collections.Counter()
for fn in ('branch', 'choose', 'concretise_int'):
    def wrap(orig, fn):
        def f(self, *a, **k):
            n = len(self.pending)
            try:
                return orig(self, *a, **k)
            finally:
                if len(self.pending) > n:
                    st = [x for x in traceback.extract_stack() if '/sx/' not in x.filename and 'forks.py' not in x.filename and 'threading' not in x.filename]
                    seen[(fn, '%s:%s %s' % (st[-1].filename.split('/')[-1], st[-1].lineno, st[-1].line))] += len(self.pending) - n
        return f
    setattr(type(e), fn, wrap(getattr(type(e), fn), fn))
hs = [h for h in run.STATE['mod'].HARNESSES]
hi = [i for i, h in enumerate(hs) if h.name == name][0]
run.SLICE = float(sys.argv[4]) if len(sys.argv) > 4 else 10
r = run.run_task((hi, tuple(hs[hi].cases[index]) if hs[hi].cases else (), [(([], []), {})], 10**6))
if r["error"]:
    sys.exit(r["error"])
print(r["stats"]['paths'], r['error'])
for k, n in seen.most_common(30):
    print(n, k)
