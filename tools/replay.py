#!/usr/bin/env python3
"""replay.py ID JOB VALUES: run the native build of one job's harness on recorded input bytes."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import specs
pid, jn, path, tier = (sys.argv[1:] + ['quick'])[:4]
spec = specs.SPECS[pid]
job = next(j for j in spec['jobs'] if j['name'] == jn)
root = tempfile.mkdtemp(prefix='vf_replay_')
try:
    b = vf.Build(root)
    r = vf.Runner(pid, spec, tier, b, job.get('harness', spec.get('harness')))
    verdict, text = r.replay(job, [int(x) for x in open(path).read().split()], os.path.join(root, 'values'))
    print(text[-4000:])
    print('verdict:', verdict)
finally:
    shutil.rmtree(root, ignore_errors=True)
sys.exit(1 if verdict in ('violated', 'crash', 'hang') else 0)
