#!/usr/bin/env python3
"""setup: checks that the tools are there and that the libc models agree with libc."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'bison', 'flex'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
d = tempfile.mkdtemp(prefix='vf_self_')
try:
    exe = os.path.join(d, 't')
    subprocess.run(['gcc', '-O1', '-w', '-fno-builtin', '-I' + os.path.join(V, 'lib'), os.path.join(V, 'lib', 'modeltest.c'), '-o', exe], check=True)
    r = subprocess.run([exe], stdout=subprocess.PIPE, text=True)
    print(r.stdout.strip())
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
