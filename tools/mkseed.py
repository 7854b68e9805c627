#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ID...]: develop planted bugs.  Not used by any check.
Each seed: id, property, edits [(file, old, new)], needs, breaks, and a demo given as
files {name: text}, args, expect (set of 'file:line ID' findings) or a custom body."""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/usr/bin/env python3
import os, re, subprocess, sys, tempfile
FILES = %(files)s
ARGS = %(args)s
EXPECT = %(expect)s
CODE = %(code)r
with tempfile.TemporaryDirectory() as d:
    for n, t in FILES.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
    exe = os.path.abspath('src/selint')
    r = subprocess.run([exe] + ARGS, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    got = sorted('%%s:%%s %%s' %% (m.group(1), m.group(2), m.group(3)) for m in re.finditer(r'^(\\S+):\\s*(\\d+): \\(.\\): .*\\((\\w-\\d+)\\)$', r.stdout, re.M))
    ok = got == sorted(EXPECT) and (CODE is None or r.returncode == CODE)
    if not ok:
        print(r.stdout)
        print('expected', sorted(EXPECT), 'exit', CODE, 'got', got, 'exit', r.returncode)
    sys.exit(0 if ok else 1)
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s['edits']:
                p = os.path.join(R, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            if 'demo' in s:
                open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
            else:
                import pprint
                open(os.path.join(d, 'demo.py'), 'w').write(DEMO % dict(files=pprint.pformat(s['files']), args=repr(s['args']), expect=repr(s['expect']), code=s.get('code')))
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
            b = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/o.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            t = subprocess.run(['python3', '/tmp/cmpb.py'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            c = subprocess.run(['python3', os.path.join(V, 'tools', 'vf.py'), s['property']], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            subprocess.run(['git', '-C', R, 'checkout', '--', '.'])
        subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('%s: build=%d demo clean=%d bug=%d tests=[%s] check=%d %s' % (s['id'], b.returncode, r0.returncode, r1.returncode, t.stdout.strip()[:200], c.returncode,
              ' '.join(l for l in c.stdout.splitlines() if l.startswith(('VIOL', 'INCON')))[:200]), flush=True)
        if r0.returncode: print(r0.stdout[-1500:])
        if c.returncode not in (0, 1): print(c.stdout[-600:])
main()
