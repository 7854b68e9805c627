#!/usr/bin/env python3
"""Solver-based checking of selint: builds /repo's current sources with goto-cc,
runs the CBMC jobs of one property, replays every counterexample (and every
reachability witness) natively, and writes evidence/<id>.json.

usage: vf.py ID [--tier quick|thorough] [--job NAME] [--keep]
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
HAR = os.path.join(VERIF, 'harness')
sys.path.insert(0, HAR)
NPROC = os.cpu_count() or 4

PIPE = ['check_hooks', 'color', 'fc_checks', 'file_list', 'if_checks', 'maps', 'ordering',
        'parse_fc', 'parse_functions', 'perm_macro', 'runner', 'selint_config', 'startup',
        'string_list', 'te_checks', 'template', 'tree', 'util']   # + parse (grammar)
SUBST = ['-Dfopen=vf_fopen', '-Dfclose=vf_fclose', '-Dgetline=vf_getline']


class Inconclusive(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', timeout=timeout, **kw)


def must(cmd, what):
    r = sh(cmd)
    if r.returncode != 0:
        raise Inconclusive('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


class Build:
    """One scratch copy of the sources of /repo, and objects built from it."""

    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, 'src')
        os.makedirs(self.src)
        for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
            if f.endswith(('.c', '.h', '.l', '.y')) and f not in ('parse.c', 'parse.h', 'lex.c'):
                shutil.copy(os.path.join(REPO, 'src', f), self.src)
        self.sym = os.path.join(root, 'sym')
        shutil.copytree(self.src, self.sym)
        self.inc = REPO if os.path.exists(os.path.join(REPO, 'config.h')) else os.path.join(LIB, 'fallback')
        must(['bison', '-d', '-Wno-yacc', '-Wno-other', '-o', os.path.join(self.src, 'parse.c'),
              os.path.join(self.src, 'parse.y')], 'bison')
        for f in os.listdir(self.src):
            t = open(os.path.join(self.src, f), errors='surrogateescape').read()
            if f.endswith(('.c', '.h')):
                t = name_union_pointers(t)
            open(os.path.join(self.sym, f), 'w', errors='surrogateescape').write(t)
        self.lexed = False
        self.stop = threading.Event()   # set once a violation is confirmed
        self.lock = threading.Lock()
        self.lock2 = threading.Lock()
        self.objs = {}
        self.digest = hashlib.sha256()
        for f in sorted(os.listdir(self.src)):
            self.digest.update(open(os.path.join(self.src, f), 'rb').read())

    def base(self, sym=False):
        return ['-I' + (self.sym if sym else self.src), '-I' + LIB, '-I' + self.inc, '-DHAVE_CONFIG_H', '-DSYSCONFDIR="/etc"',
                '-D_GNU_SOURCE', '-w']

    def need_lex(self):
        with self.lock:
            if not self.lexed:
                must(['flex', '-o', os.path.join(self.src, 'lex.c'), os.path.join(self.src, 'lex.l')], 'flex')
                self.lexed = True

    def tokdump(self):
        exe = os.path.join(self.root, 'tokdump')
        self.need_lex()
        with self.lock:
            if not os.path.exists(exe):
                must(['gcc', '-O0'] + self.base() + [os.path.join(LIB, 'tokdump.c'),
                     os.path.join(self.src, 'lex.c'), '-o', exe], 'token dumper')
        return exe


# CBMC 6.11 loses track of a pointer that is read out of a non-first union member
# and dereferenced in the same expression (the value becomes unconstrained, which
# would only cost precision).  Giving the pointer a name first avoids that.
UNION_DEREF = re.compile(r'((?:\(\*\w+\)|\b[A-Za-z_]\w*)(?:(?:->|\.)\w+|\[[^][]*\])*?(?:->|\.)data\.\w+|\(yyval\.\w+\)|\(yyvsp\[[^][]*\]\.\w+\))(?=->|\[)')


def name_union_pointers(text):
    return UNION_DEREF.sub(lambda m: '({ __typeof__(%s) vf_up = (%s); vf_up; })' % (m.group(1), m.group(1)), text)


def gen_policies(build, harness_text, outdir):
    """Policy blocks -> vf_policies.h through the repository's own lexer.
    /*@policy NAME [if CPP-EXPR]\n...@*/  tokens of a policy file; HOLE_x -> vf_hole_x,
                                          #selint-disable: W-9NN -> vf_cmd_NN
    /*@lines NAME [if CPP-EXPR]\n...@*/   lines of a text file; a line @x stands for the array vf_line_x"""
    blocks = re.findall(r'/\*@(policy|lines) (\S+)(?: if ([^\n]*))?\n(.*?)@\*/', harness_text, re.S)
    hdr = open(os.path.join(build.src, 'parse.h')).read()
    kinds = dict((int(v), k) for k, v in re.findall(r'^\s+([A-Z][A-Z0-9_]+) = (\d+)', hdr, re.M))
    has_text = {'STRING', 'NUM_STRING', 'IPV4', 'IPV6', 'NUMBER', 'QUOTED_STRING', 'VERSION_NO', 'SELINT_COMMAND'}
    out, table, holes, cmds, lns = [], [], set(), set(), set()
    for i, (kind, name, cond, text) in enumerate(blocks):
        arr = []
        if kind == 'policy':
            exe = build.tokdump()
            p = os.path.join(outdir, 'blk%d' % i)
            open(p, 'w').write(text)
            last = 1
            for l in must([exe, p], 'tokenising ' + name).splitlines():
                k, a, b, t = (l.split(' ', 3) + [''])[:4]
                tk = kinds[int(k)]
                last = int(b)
                expr = '0'
                if tk in has_text:
                    expr = json.dumps(t)
                    m = re.match(r'"?HOLE_(\w+?)"?$', t)
                    if m:
                        holes.add(m.group(1))
                        expr = 'vf_hole_' + m.group(1)
                    m = re.match(r'#selint-disable: W-9(\d\d)$', t)
                    if m:
                        cmds.add(int(m.group(1)))
                        expr = 'vf_cmd_%d' % int(m.group(1))
                arr.append('\t{ %s, %s, %s, %s },' % (tk, expr, a, b))
            body = 'static const struct vf_tok vf_tokens_%d[] = {\n%s\n\t{ 0, 0, %d, %d }\n};' % (i, '\n'.join(arr), last, last)
            row = '\t{ "%s", vf_tokens_%d, 0, 0 },' % (name, i)
        else:
            for l in text.splitlines(True):
                m = re.match(r'@(\w+)$', l.strip())
                if m: lns.add(m.group(1))
                arr.append('\t%s,' % ('vf_line_' + m.group(1) if m else json.dumps(l)))
            body = 'static const char *const vf_lines_%d[] = {\n%s\n\t0\n};' % (i, '\n'.join(arr))
            row = '\t{ "%s", 0, vf_lines_%d, %d },' % (name, i, len(arr))
        if cond:
            body, row = '#if %s\n%s\n#endif' % (cond, body), '#if %s\n%s\n#endif' % (cond, row)
        out.append(body)
        table.append(row)
    pre = ['#ifndef VF_HOLE\n#define VF_HOLE 16\n#endif\n#ifndef VF_LINE\n#define VF_LINE 40\n#endif']
    pre += ['static char vf_hole_%s[VF_HOLE];' % h for h in sorted(holes)]
    pre += ['static char vf_cmd_%d[40];' % c for c in sorted(cmds)]
    pre += ['static char vf_line_%s[VF_LINE];' % c for c in sorted(lns)]
    out.append('#ifndef VF_EXTRA_VFILES\n#define VF_EXTRA_VFILES\n#endif')
    out.append('static const struct vf_vfile vf_vfiles[] = {\n%s\n VF_EXTRA_VFILES\n\t{ "", 0, 0, 0 }\n};' % '\n'.join(table))
    out.append('#define VF_NVFILES (sizeof vf_vfiles / sizeof vf_vfiles[0])')
    open(os.path.join(outdir, 'vf_policies.h'), 'w').write('\n'.join(pre + out) + '\n')


class Runner:
    def __init__(self, pid, spec, tier, build, harness):
        self.pid, self.spec, self.tier, self.b = pid, spec, tier, build
        self.t0 = time.time()
        self.dir = os.path.join(build.root, 'h_' + harness)
        os.makedirs(self.dir)
        self.hpath = os.path.join(HAR, harness)
        self.htext = open(self.hpath).read()
        gen_policies(build, self.htext, self.dir)
        self.hsym = os.path.join(self.dir, 'harness_' + harness)
        open(self.hsym, 'w').write('#line 1 "%s"\n' % self.hpath + name_union_pointers(self.htext))
        self.objs = build.objs
        self.nat = {}
        self.olock = build.lock2

    # ---- building -------------------------------------------------------
    def sources(self, job):
        s = job.get('srcs', self.spec.get('srcs', 'pipe'))
        if s == 'pipe':
            s = ['parse'] + PIPE
        s = [x for x in s if os.path.exists(os.path.join(self.b.src, x + '.c')) or x in ('parse', 'lex')]
        # a source file added by a change is linked too
        known = set(PIPE) | {'main', 'parse', 'lex'}
        for f in sorted(os.listdir(self.b.src)):
            if f.endswith('.c') and f[:-2] not in known:
                s.append(f[:-2])
        return s

    def objdefs(self, job):
        d = list(SUBST) if self.spec.get('vfs', True) else []
        return d + ['-D' + x for x in self.spec.get('objdefs', []) + job.get('objdefs', [])]

    def hdefs(self, job):
        d = self.spec.get('defs', []) + job.get('defs', [])
        if self.tier == 'thorough': d = d + ['THOROUGH'] + self.spec.get('tdefs', [])
        return ['-D' + x for x in d]

    def filedefs(self, job, name):
        """redefinitions for the calls made from one source file only"""
        fd = job.get('filedefs', self.spec.get('filedefs', {}))
        return ['-D' + x for x in fd.get(name, [])]

    def goto_obj(self, name, defs, job):
        defs = defs + self.filedefs(job, name)
        key = (name, tuple(defs), 'g')
        with self.olock:
            fut = self.objs.get(key)
            if fut is None:
                fut = self.objs[key] = cf.Future()
                mine = True
            else:
                mine = False
        if mine:
            try:
                if name == 'lex':
                    self.b.need_lex()
                    shutil.copy(os.path.join(self.b.src, 'lex.c'), self.b.sym)
                o = os.path.join(self.b.root, 'g_%s_%s.gb' % (name, hashlib.md5(repr(defs).encode()).hexdigest()[:8]))
                must(['goto-cc', '-I' + os.path.join(LIB, 'shim')] + self.b.base(True) + defs +
                     ['-DVF_SYMBOLIC', '-D__NO_CTYPE', '-DYYINITDEPTH=60', '-U_FORTIFY_SOURCE',
                      '-c', os.path.join(self.b.sym, name + '.c'), '-o', o], 'goto-cc')
                fut.set_result(o)
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    def goto(self, job):
        defs = self.objdefs(job)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(lambda n: self.goto_obj(n, defs, job), self.sources(job)))
        out = os.path.join(self.dir, 'job_%s.gb' % job['name'])
        hd = self.hdefs(job)
        must(['goto-cc', '-I' + os.path.join(LIB, 'shim'), '-I' + self.dir] + self.b.base(True) + hd +
             ['-DVF_SYMBOLIC', '-D__NO_CTYPE', '-U_FORTIFY_SOURCE', self.hsym, os.path.join(LIB, 'models.c')] +
             objs + ['-o', out], 'goto-cc link')
        return out

    def native(self, job):
        key = job['name']
        with self.olock:
            fut = self.nat.get(key)
            mine = fut is None
            if mine:
                fut = self.nat[key] = cf.Future()
        if mine:
            try:
                exe = os.path.join(self.dir, 'nat_' + job['name'])
                defs = self.objdefs(job)
                flags = ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
                def one(n, defs=defs):
                    defs = defs + self.filedefs(job, n)
                    k = (n, tuple(defs), 'n')
                    with self.olock:
                        f2 = self.objs.get(k)
                        m2 = f2 is None
                        if m2:
                            f2 = self.objs[k] = cf.Future()
                    if m2:
                        try:
                            o = os.path.join(self.b.root, 'n_%s_%s.o' % (n, hashlib.md5(repr(defs).encode()).hexdigest()[:8]))
                            must(['gcc'] + flags + self.b.base() + defs + ['-c', os.path.join(self.b.src, n + '.c'), '-o', o], 'gcc')
                            f2.set_result(o)
                        except BaseException as e:
                            f2.set_exception(e)
                    return f2.result()
                with cf.ThreadPoolExecutor(NPROC) as ex:
                    objs = list(ex.map(one, self.sources(job)))
                hd = self.hdefs(job)
                must(['gcc'] + flags + ['-I' + self.dir] + self.b.base() + hd +
                     [self.hpath, os.path.join(LIB, 'native.c')] + objs + ['-lconfuse', '-lm', '-o', exe], 'gcc link')
                fut.set_result(exe)
            except BaseException as e:
                fut.set_exception(e)
        return fut.result()

    # ---- running --------------------------------------------------------
    def cbmc(self, gb, job, unwind, extra=()):
        cmd = ['cbmc', gb, '--json-ui', '--verbosity', '8', '--object-bits', str(job.get('object_bits', 13)),
               '--no-malloc-may-fail', '--unwind', str(unwind), '--unwinding-assertions',
               '--drop-unused-functions', '--trace', '--sat-solver', 'cadical']
        if not job.get('memcheck', self.spec.get('memcheck')):
            cmd.append('--no-standard-checks')
            cmd.append('--unwinding-assertions')
        else:
            cmd += ['--no-signed-overflow-check', '--no-undefined-shift-check']
        cmd += list(self.spec.get('cbmc', [])) + list(job.get('cbmc', [])) + list(extra)
        uf = job.get('unwind_files', self.spec.get('unwind_files'))
        if uf:
            r = sh(['cbmc', gb, '--show-loops', '--json-ui'])
            sel = []
            scale = max(1, unwind // job.get('unwind', self.spec.get('unwind', 80)))
            for m in json.loads(r.stdout):
                for l in m.get('loops', []):
                    f = os.path.basename(l.get('sourceLocation', {}).get('file', ''))
                    if f in uf: sel.append('%s:%d' % (l['name'], uf[f] * scale))
            if sel: cmd += ['--unwindset', ','.join(sel)]
        to = job.get('timeout', self.spec.get('timeout', 400 if self.tier == 'quick' else 1500))
        out = os.path.join(self.dir, 'cbmc_%s.json' % job['name'])
        end = time.time() + to
        with open(out, 'wb') as f:
            pr = subprocess.Popen(['bash', '-c', 'ulimit -v %d; exec "$@"' % (job.get('mem_gb', self.spec.get('mem_gb', 12)) * 1000000), 'cbmc'] + cmd,
                                  stdout=f, stderr=subprocess.STDOUT)
            while True:
                try:
                    pr.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if self.b.stop.is_set() or time.time() > end:
                    pr.kill(); pr.wait()
                    raise Inconclusive('job %s: %s' % (job['name'], 'ended early' if self.b.stop.is_set() else 'solver budget of %d s exhausted' % to))
        text = open(out, errors='replace').read()
        os.unlink(out)
        try:
            data = json.loads(text)
        except ValueError:
            raise Inconclusive('job %s: cbmc gave no result (out of memory or killed): %s' % (job['name'], ' '.join(l for l in text.splitlines()[-4:] if 'message' not in l)[:300]))
        res = {'props': [], 'steps': 0, 'vccs': 0, 'remaining': 0, 'solver': 0.0, 'symex': 0.0, 'queries': 0}
        got = False
        for m in data:
            t = m.get('messageText', '')
            x = re.search(r'size of program expression: (\d+) steps', t)
            if x: res['steps'] = int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if x: res['vccs'], res['remaining'] = int(x.group(1)), int(x.group(2))
            x = re.search(r'Runtime Solver: ([\d.e+-]+)s', t)
            if x: res['solver'] += float(x.group(1)); res['queries'] += 1
            x = re.search(r'Runtime Symex: ([\d.e+-]+)s', t)
            if x: res['symex'] = float(x.group(1))
            if m.get('messageType') == 'ERROR' and 'no body' not in t:
                raise Inconclusive('job %s: cbmc: %s' % (job['name'], t))
            if 'result' in m:
                res['props'] = m['result']
                got = True
        if not got:
            raise Inconclusive('job %s: cbmc gave no verdict' % job['name'])
        return res

    @staticmethod
    def values(trace):
        vals = []
        for s in trace:
            if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_nd_val' and not s.get('hidden'):
                if s.get('sourceLocation', {}).get('function') != 'vf_nd_raw':
                    continue
                vals.append(int(s['value'].get('binary', '0'), 2) if 'binary' in s['value'] else int(s['value'].get('data', 0)))
        return vals

    def replay(self, job, vals, path):
        with open(path, 'w') as f:
            f.write('\n'.join(map(str, vals)) + '\n')
        exe = self.native(job)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = sh([exe, path], timeout=20, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return 'hang', '(no termination within 20 s)'
        if r.returncode == 0: return 'held', r.stdout
        if r.returncode == 10: return 'violated', r.stdout
        if r.returncode == 20: return 'assume', r.stdout
        return 'crash', r.stdout

    def run_job(self, job):
        gb = self.goto(job)
        unwind = job.get('unwind', self.spec.get('unwind', 80))
        res = self.cbmc(gb, job, unwind)
        def cat(p):
            d = p.get('description', '')
            n = p.get('property', '')
            if d.startswith('P:'): return 'P'
            if d.startswith('W:'): return 'W'
            if d.startswith('B:'): return 'B'
            if 'no-body' in n or '.no_body' in n: return 'N'
            if '.unwind.' in n or '.recursion' in n or 'unwinding assertion' in d or 'recursion' in d: return 'U'
            return 'M'
        fails = [p for p in res['props'] if p['status'] == 'FAILURE']
        if any(cat(p) == 'U' for p in fails) and not any(cat(p) == 'P' for p in fails):
            for k in (2, 4):                # the code may loop longer than the bound
                res2 = self.cbmc(gb, job, unwind * k)
                res2['solver'] += res['solver']; res2['queries'] += res['queries']
                res = res2
                fails = [p for p in res['props'] if p['status'] == 'FAILURE']
                if not any(cat(p) == 'U' for p in fails) or any(cat(p) == 'P' for p in fails): break
            unwind *= k
        out = {'job': job['name'], 'unwind': unwind, 'steps': res['steps'], 'vccs': res['vccs'],
               'remaining': res['remaining'], 'solver_s': res['solver'], 'symex_s': res['symex'], 'queries': res['queries'],
               'obligations': sum(1 for p in res['props'] if cat(p) != 'W'),
               'assertions': sorted(set(p['description'][2:] for p in res['props'] if cat(p) == 'P')),
               'witnesses': [], 'violations': [], 'problems': []}
        memcheck = job.get('memcheck', self.spec.get('memcheck'))
        for p in fails:
            c = cat(p)
            if c == 'N':
                out['problems'].append('no body for a called function: ' + p.get('property', ''))
                continue
            if c == 'M' and not memcheck:
                out['problems'].append('unexpected failed obligation: %s %s' % (p.get('property'), p.get('description')))
                continue
            vals = self.values(p.get('trace', []))
            tag = hashlib.md5((job['name'] + p.get('property', '') + p.get('description', '')).encode()).hexdigest()[:10]
            path = os.path.join(self.dir, 'vals_%s_%s' % (job['name'], tag))
            verdict, text = self.replay(job, vals, path)
            rec = {'job': job['name'], 'what': p.get('description', ''), 'class': c, 'values': vals,
                   'native': verdict, 'output': text[-3000:], 'path': path}
            if c == 'W':
                if verdict == 'held' and ('VF-WITNESS ' + p['description'][2:]) in text:
                    out['witnesses'].append(rec)
                elif verdict in ('violated', 'crash', 'hang'):
                    out['violations'].append(rec)
                else:
                    out['problems'].append('witness %r does not replay (%s): %s' % (p['description'], verdict, text[-600:]))
            else:
                if verdict in ('violated', 'crash', 'hang'):
                    out['violations'].append(rec)
                else:
                    out['problems'].append('counterexample to %r does not reproduce (%s): %s' % (p['description'] or p.get('property'), verdict, text[-600:]))
        for p in res['props']:
            if cat(p) == 'W' and p['status'] != 'FAILURE':
                out['problems'].append('unreached witness %r (vacuous harness)' % p['description'])
            if p['status'] not in ('SUCCESS', 'FAILURE'):
                out['problems'].append('no verdict for %s: %s' % (p.get('property'), p['status']))
        if not any(cat(p) == 'P' for p in res['props']) and not memcheck:
            out['problems'].append('no property assertion was generated')
        if not os.environ.get('VF_KEEP'):
            try: os.unlink(gb)
            except OSError: pass
        return out

    def functions(self, job):
        """repository functions reachable in the encoded program"""
        gb = self.goto(job)
        fp = gb + '.fp'
        r = sh(['goto-instrument', '--remove-function-pointers', gb, fp])
        r = sh(['goto-instrument', '--reachable-call-graph', fp if os.path.exists(fp) else gb])
        names = set()
        for l in r.stdout.splitlines():
            m = re.match(r'(\S+) -> (\S+)$', l.strip())
            if m: names.update(m.groups())
        defs = set()
        for s in self.sources(job):
            try: txt = open(os.path.join(self.b.src, s + '.c'), errors='replace').read()
            except OSError: continue
            defs.update(re.findall(r'\b([A-Za-z_]\w*)\s*\([^;{}]*\)\s*\{', txt))
        return sorted(n for n in names if n in defs and not n.startswith('vf_'))


def load_known(pid):
    """known-findings.txt: 'known: property=<id> key=<text> <what fails>'"""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def is_known(known, v):
    key = v['job'] + '|' + v['what']
    return next((k for k in known if re.fullmatch(k[0], key)), None)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job')
    ap.add_argument('--keep', action='store_true'); ap.add_argument('--timeout', type=int)
    a = ap.parse_args()
    import specs
    spec = specs.SPECS[a.id]
    t0 = time.time()
    root = tempfile.mkdtemp(prefix='vf_%s_' % a.id)
    rc = 2
    try:
        rc = check(a, spec, root, t0)
    except Inconclusive as e:
        print('INCONCLUSIVE property=%s %s' % (a.id, e))
        rc = 2
    finally:
        if a.keep:
            print('scratch kept in', root)
        else:
            shutil.rmtree(root, ignore_errors=True)
    sys.exit(rc)


def check(a, spec, root, t0):
    pid, tier = a.id, a.tier
    build = Build(root)
    if a.timeout: spec['timeout'] = a.timeout
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or j.get('tier', 'quick') == 'quick']
    if a.job:
        jobs = [j for j in spec['jobs'] if re.search(a.job, j['name'])]
    runners = {}
    for j in jobs:
        h = j.get('harness', spec.get('harness'))
        if h not in runners: runners[h] = Runner(pid, spec, tier, build, h)
    def rof(j): return runners[j.get('harness', spec.get('harness'))]
    outs, problems = [], []
    width = spec.get('parallel', NPROC)
    known = load_known(pid)
    def go(j):
        t = time.time()
        if build.stop.is_set(): return {'job': j['name'], 'failed': 'job %s: not run' % j['name']}
        try:
            o = rof(j).run_job(j)
        except Inconclusive as e:
            return {'job': j['name'], 'failed': str(e)}
        o['wall'] = time.time() - t
        if any(not is_known(known, v) for v in o['violations']): build.stop.set()
        return o
    with cf.ThreadPoolExecutor(width) as ex:
        for o in ex.map(go, jobs):
            if a.job or os.environ.get('VF_VERBOSE'):
                print('job %s: %s' % (o['job'], o.get('failed') or 'steps=%d vccs=%d solver=%.1fs wall=%.1fs witnesses=%d violations=%d problems=%d' % (
                    o['steps'], o['vccs'], o['solver_s'], o['wall'], len(o['witnesses']), len(o['violations']), len(o['problems']))), flush=True)
            outs.append(o)
    for o in outs:
        if 'failed' in o: problems.append(o['failed'])
        else: problems += ['job %s: %s' % (o['job'], x) for x in o['problems']]
    good = [o for o in outs if 'failed' not in o]
    viol = [v for o in good for v in o['violations']]
    reported, suppressed = [], {}
    for v in viol:
        hit = is_known(known, v)
        if hit: suppressed[hit[0]] = hit[1]
        else: reported.append(v)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replays = []
    for n, v in enumerate(reported[:5]):
        d = os.path.join(evdir, 'replay_%s_%d' % (pid, n))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'values'), 'w').write('\n'.join(map(str, v['values'])) + '\n')
        open(os.path.join(d, 'report.txt'), 'w').write(
            'property %s\njob %s\nassertion %s\nnative verdict %s\nnative output:\n%s\n\nvalues (hex): %s\n\nre-run: python3 %s/tools/replay.py %s %s %s\n' % (
                pid, v['job'], v['what'], v['native'], v['output'], ' '.join('%02x' % x for x in v['values']), VERIF, pid, v['job'], os.path.join(d, 'values')))
        replays.append(os.path.join(d, 'report.txt'))
    fns = []
    try:
        if jobs: fns = sorted(set(sum((rof(j).functions(j) for j in {rof(j): j for j in jobs}.values()), [])))
    except Exception:
        pass
    samples = []
    for o in good:
        for w in o['witnesses'][:2]:
            samples.append('%s: witness "%s" with input bytes [%s] replayed natively' % (o['job'], w['what'][2:], ' '.join('%02x' % x for x in w['values'][:48])))
    wit = sum(len(o['witnesses']) for o in good)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': sum(o['steps'] for o in good),
            'transitions': sum(o['vccs'] for o in good),
            'traces_validated_against_impl': wit + len(viol),
            'samples': samples[:12] or ['none'],
            'meaning': 'states = symbolic execution steps (SSA) of the encoded code, transitions = verification conditions generated from them',
            'queries_discharged': sum(o['queries'] for o in good),
            'obligations_after_simplification': sum(o['remaining'] for o in good),
            'solver_s': round(sum(o['solver_s'] for o in good), 3),
            'symex_s': round(sum(o['symex_s'] for o in good), 3),
            'jobs': [{'name': o['job'], 'unwind': o['unwind'], 'steps': o['steps'], 'vccs': o['vccs'],
                      'solver_s': round(o['solver_s'], 3), 'witnesses': len(o['witnesses'])} for o in good],
            'assertions': sorted(set(x for o in good for x in o['assertions']))[:60],
            'functions_encoded': fns,
            'bounds': spec.get('bounds', ''),
            'outside': spec.get('outside', ''),
            'source_digest': build.digest.hexdigest()[:16],
            'solver': 'CBMC 6.11.0 (CaDiCaL)',
        },
        'assumptions': spec.get('assumptions', []) + [
            'malloc does not fail; libc string/format routines and uthash behave as modelled in /verif/lib (models compared with the real ones by tools/selftest.py)'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for k, w in suppressed.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if reported:
        for v in reported[:5]:
            print('violated: job %s: %s (native replay: %s)' % (v['job'], v['what'], v['native']))
        print('VIOLATION property=%s replay=%s' % (pid, replays[0]))
        return 1
    if problems:
        for p in problems[:20]:
            print('PROBLEM', p)
        print('INCONCLUSIVE property=%s' % pid)
        return 2
    print('HELD property=%s jobs=%d steps=%d vccs=%d queries=%d solver=%.1fs witnesses_replayed=%d wall=%.1fs' % (
        pid, len(good), ev['coverage']['states'], ev['coverage']['transitions'], ev['coverage']['queries_discharged'],
        ev['coverage']['solver_s'], wit, time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
