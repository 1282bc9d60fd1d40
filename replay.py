"""python replay.py FILE: run a counterexample on the real code."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('PILO_REPO', '/repo'), HERE]
sys.dont_write_bytecode = True

from sx import native

job = json.load(open(sys.argv[1]))
r = native.run_one(job['property'], job['harness'], native.detuple(job['case']), job['inputs'])
print('%s%r %s' % (job['harness'], tuple(job['case']), json.dumps(job['inputs'])))
print('%s: %s' % (r['outcome'], r['message']))
print(r['trace'])
sys.exit(1 if r['outcome'] in ('violation', 'exception') else 0)
