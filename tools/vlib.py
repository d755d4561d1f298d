"""Common machinery of the checks: TLC runs, drivers, trace validation, evidence."""
import os, sys, json, subprocess, tempfile, shutil, time, re, random, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild

VERIF = vbuild.VERIF
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ModelError(Exception):
    """the model, the harness or the tool chain failed: not a verdict on the code"""

def tla(v):
    """Python value -> TLA+ expression"""
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)

class TLCResult:
    pass

def run_tlc(module, cfg, scratch, args=(), env=None, timeout=800, workers=8, heap='6g', defs=None):
    """Run TLC on spec/<module>.tla (or a scratch module) with the given cfg text."""
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    if defs:
        for name, text in defs.items():
            with open(os.path.join(d, name + '.tla'), 'w') as f:
                f.write(text)
    with open(os.path.join(d, 'M.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ); e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', JAR, 'tlc2.TLC', '-config', 'M.cfg',
           '-metadir', os.path.join(d, 'states'), '-workers', str(workers), '-noGenerateSpecTE', *args, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise ModelError('TLC timed out on ' + module)
    r = TLCResult()
    r.out = p.stdout + p.stderr
    r.rc = p.returncode
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out)
    r.generated = int(m.group(1).replace(',', '')) if m else 0
    r.distinct = int(m.group(2).replace(',', '')) if m else 0
    r.violated = re.search(r'Error: Invariant (\w+) is violated|Error: Action property (\w+) is violated|Temporal properties were violated|Error: Deadlock', r.out)
    r.ok = p.returncode == 0
    shutil.rmtree(d, ignore_errors=True)
    return r

def printed_json(out):
    """values printed by PrintT(ToJson(x))"""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res

class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed)
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix='run_%s_' % pid, dir=os.path.join(VERIF, 'build'))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.findings = self.load_findings()
        self.paths = None

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---- known findings -------------------------------------------------
    def load_findings(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        res = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line:
                    f = json.loads(line)
                    if f.get('property') == self.pid and f.get('status') == 'known':
                        res.append(f)
        return res

    def known(self, key):
        return any(f.get('key') == key for f in self.findings)

    # ---- building -------------------------------------------------------
    def build(self, *drivers, **kw):
        variant = kw.pop('variant', 'std')
        b = vbuild.Builder(variant, log=self.log)
        try:
            p = b.lib(drivers=drivers, **kw)
        finally:
            b.close()
        if self.paths is None: self.paths = {}
        if variant == 'std': self.paths.update(p)
        p['libdir'] = os.path.join(b.dir, 'lib')
        p['bindir'] = os.path.join(b.dir, 'bin')
        return p

    # ---- TLC ------------------------------------------------------------
    def model_check(self, module, cfg, **kw):
        """exhaustive check of the specification itself"""
        r = run_tlc(module, cfg, self.scratch, **kw)
        if not r.ok:
            raise ModelError('specification %s fails its own check:\n%s' % (module, r.out[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.log('TLC %s: %d distinct states, %d transitions' % (module, r.distinct, r.generated))
        return r

    def generate(self, module, cfg, simulate=None, depth=None, **kw):
        """behaviours printed by the specification"""
        args = []
        if simulate:
            args += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100), '-seed', str(self.seed)]
        kw.setdefault('workers', 1)
        r = run_tlc(module, cfg, self.scratch, args=args, **kw)
        if not r.ok:
            raise ModelError('generation from %s failed:\n%s' % (module, r.out[-4000:]))
        if not simulate:
            self.states += r.distinct
            self.transitions += r.generated
        b = printed_json(r.out)
        if simulate:   # TLC prints every candidate last step of a walk: keep one per walk
            seen = {}
            for x in b:
                k = json.dumps(x[:-1]) if isinstance(x, list) else json.dumps(x)
                seen.setdefault(k, []).append(x)
            b = [self.rng.choice(v) for v in seen.values()]
        self.log('TLC %s: %d behaviours generated (%d states, %d transitions)' % (module, len(b), r.distinct, r.generated))
        if not b:
            raise ModelError('no behaviours from ' + module + '\n' + r.out[-2000:])
        return b

    def validate(self, module, cfg, traces, chunk=None, quiet=False, tenv=None, **kw):
        """traces: list of {'id':..., 'ev': [...]}; returns list of (trace, position, tlc text) rejected.
        The trace specification has variables t (trace number) and l (position), and invariant Accepted."""
        bad = []
        todo = list(traces)
        rounds = 0
        while todo:
            f = os.path.join(self.scratch, 'traces_%d.ndjson' % time.time_ns())
            with open(f, 'w') as g:
                for tr in todo:
                    g.write(json.dumps(tr) + '\n')
            r = run_tlc(module, cfg, self.scratch, env=dict(tenv or {}, TRACE=f), **kw)
            os.unlink(f)
            if r.ok:
                if not bad and not quiet:
                    self.log('TLC %s: %d traces, %d events validated, %d states' % (module, len(todo), sum(len(t['ev']) for t in todo), r.distinct))
                if r.distinct < sum(len(t['ev']) for t in todo):
                    raise ModelError('trace specification %s explored fewer states (%d) than events' % (module, r.distinct))
                break
            m = re.search(r'Invariant Accepted is violated|Deadlock reached', r.out)
            if not m:
                raise ModelError('trace validation with %s failed:\n%s' % (module, r.out[-4000:]))
            tt = re.findall(r'^/\\ t = (\d+)', r.out, re.M)
            ll = re.findall(r'^/\\ l = (\d+)', r.out, re.M)
            t, l = int(tt[-1]) - 1, int(ll[-1]) - 1
            bad.append((todo[t], l, r.out[-3000:]))
            rounds += 1
            if rounds >= 1:
                break
        return bad

    # ---- drivers --------------------------------------------------------
    def env(self, p, extra=None):
        e = dict(os.environ)
        e['LD_LIBRARY_PATH'] = p['libdir'] + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
        e['GYOTO_PLUGINS'] = 'stdplug'
        e['LC_ALL'] = 'C.UTF-8'
        e['OMP_NUM_THREADS'] = '1'
        e['TMPDIR'] = self.scratch
        e.update(extra or {})
        return e

    def run_driver(self, p, driver, text, args=(), timeout=600, extra=None):
        d = tempfile.mkdtemp(prefix='drv', dir=self.scratch)
        try:
            r = subprocess.run([p[driver], *args], input=text, cwd=d, env=self.env(p, extra), capture_output=True, text=True,
                               timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            return None, 'timeout', ''
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return r.returncode, r.stdout, r.stderr

    def replay(self, p, driver, scripts, par=8, args=(), timeout=600, extra=None, raw=False):
        """scripts: list of list-of-lines.  The driver forks one child per script and prints, per script,
        'T <n>' then one observation line per op, then 'E <status>' (ok, sig<k>, exit<k>, hang)."""
        from concurrent.futures import ThreadPoolExecutor
        n = len(scripts)
        par = max(1, min(par, n))
        np = min(6 * par, n) if n > 40 else par   # small parts: no straggler
        parts = [list(range(i, n, np)) for i in range(np)]
        def one(idx):
            txt = ''.join('T %d\n' % i + ''.join(l + '\n' for l in scripts[i]) + '.\n' for i in idx)
            rc, out, err = self.run_driver(p, driver, txt, args=args, timeout=timeout, extra=extra)
            if rc is None:
                raise ModelError('driver %s timed out' % driver)
            if rc != 0:
                raise ModelError('driver %s failed rc=%s: %s' % (driver, rc, err[-2000:]))
            return out
        res = [None] * n
        with ThreadPoolExecutor(par) as ex:
            for out in ex.map(one, parts):
                cur = None
                for line in out.split('\n'):
                    if line.startswith('T '):
                        cur = int(line[2:]); res[cur] = ([], None)
                    elif line.startswith('E ') and cur is not None:
                        res[cur] = (res[cur][0], line[2:].strip()); cur = None
                    elif cur is not None and line.startswith('> '):
                        res[cur][0].append(line[2:])
        for i, r in enumerate(res):
            if r is None or r[1] is None:
                raise ModelError('driver %s gave no result for script %d' % (driver, i))
        return res

    # ---- conformance ------------------------------------------------------
    def conform(self, driver, p, scripts, line, decode, trace_module, trace_cfg, what, args=(), extra=None, key=None,
                describe=None, par=8, timeout=800, max_viol=3, tenv=None, tdefs=None):
        """Replay the behaviours in the real code, record what it does, and let TLC decide
        whether each recorded execution is a behaviour of the specification.
        A rejected execution is re-run; only one that is rejected again is a violation."""
        def record(idx):
            grp = {i: [x if isinstance(x, list) else [x] for x in (line(s) for s in scripts[i])] for i in idx}
            many = any(isinstance(line(s), list) for i in idx for s in scripts[i][:1])
            res = self.replay(p, driver, [[l for g in grp[i] for l in g] for i in idx], args=args, extra=extra, par=par, timeout=timeout)
            out = []
            for i, (obs, st) in zip(idx, res):
                n = len(obs)
                if many:
                    g2, k = [], 0
                    for g in grp[i]:
                        if k + len(g) > n: break
                        g2.append(obs[k:k + len(g)]); k += len(g)
                    ev = decode(scripts[i], g2)
                else:
                    ev = decode(scripts[i], obs)
                if st != 'ok':
                    ev = ev + [dict(op='CRASH', status=st, after=obs[-1:] )]
                elif n != sum(len(g) for g in grp[i]):
                    raise ModelError('driver %s: %d observations for %d operations: %s' % (driver, n, len(scripts[i]), obs[-3:]))
                out.append(dict(id=i, ev=ev))
            return out
        todo = list(range(len(scripts)))
        traces = record(todo)
        crashed = [t for t in traces if t['ev'] and t['ev'][-1].get('op') == 'CRASH']
        good = [t for t in traces if not (t['ev'] and t['ev'][-1].get('op') == 'CRASH')]
        nviol = 0
        for t in crashed[:3]:
            again = record([t['id']])[0]
            if again['ev'] and again['ev'][-1].get('op') == 'CRASH':
                self.report(what, scripts[t['id']], again['ev'], len(again['ev']) - 1, key, describe); nviol += 1
        n = 0
        while good and nviol < max_viol:
            bad = self.validate(trace_module, trace_cfg, good, tenv=tenv, defs=tdefs)
            if not bad: break
            tr, pos, txt = bad[0]
            good = [t for t in good if t['id'] != tr['id']]
            again = record([tr['id']])[0]
            if again['ev'] and again['ev'][-1].get('op') == 'CRASH':
                self.report(what, scripts[tr['id']], again['ev'], len(again['ev']) - 1, key, describe); nviol += 1
                continue
            bad2 = self.validate(trace_module, trace_cfg, [again], quiet=True, tenv=tenv, defs=tdefs)
            if bad2:
                if self.report(what, scripts[tr['id']], again['ev'], bad2[0][1], key, describe): nviol += 1
            else:
                n += 1
                self.log('unrepeatable rejection ignored (trace %d)' % tr['id'])
            if n > 20: raise ModelError('too many unrepeatable rejections')
        self.traces += len(scripts)
        self.events += sum(len(t['ev']) for t in traces)
        if not self.samples:
            self.samples = [traces[0]['ev'][:6], traces[len(traces) // 2]['ev'][:6]]
        return traces

    def report(self, what, script, ev, pos, key, describe):
        k = key(script, ev, pos) if key else None
        if k is not None and self.known(k):
            self.log('known finding', k)
            return False
        e = ev[pos] if pos < len(ev) else None
        txt = '%s: the code does what the specification forbids at step %d: %s' % (what, pos + 1, describe(script, ev, pos) if describe else json.dumps(e))
        self.violation(txt, {'script': script[:pos + 1], 'events': ev[:pos + 1], 'position': pos, 'key': k})
        return True

    # ---- verdicts -------------------------------------------------------
    def violation(self, what, detail):
        """record a confirmed violation"""
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256(json.dumps([what, detail], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'detail': detail}, f, indent=1, default=str)
        self.violations.append((what, path))
        print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
        print('  ' + what[:1500], flush=True)

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:5] or ['(none)'],
               'events_validated': self.events}
        cov.update(self.extra)
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        self.log('done: %d states, %d transitions, %d traces, %d events, %d violations' %
                 (self.states, self.transitions, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0
