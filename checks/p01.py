"""P01: every selected pixel traced exactly once into its own cell (spec/RayTrace.tla)."""
import json
from p16 import enc
NP = 4
def line(s): return s
def mk(cfg, threads, sched, stretch, q='all', fail=-1):
    sc = ['npix %d' % NP, 'threads %d' % threads, 'full %d' % cfg['full'], 'q ' + q]
    if cfg['mask'] != 'none': sc.append('mask ' + ' '.join('%d %d' % tuple(p) for p in cfg['keep']))
    sc.append('sel ' + enc(cfg['sel']))
    if fail >= 0: sc.append('fail %d' % fail)
    if sched is not None: sc.append('sched %d ' % stretch + ' '.join(map(str, sched)))
    return sc
def pt(code): return [code % 10, (code % 1000) // 10] if code > 0 else [-9, -9]
class Dec:
    def __init__(self): self.cfgs = {}; self.switches = 0
    def key(self, script): return json.dumps(script)
    def __call__(self, script, obs):
        cfg = self.cfgs[self.key(script)]
        ev = [dict(op='call', cfg=cfg)]
        if not obs or ';' not in obs[-1]: return ev
        st, vis, cells, sw = obs[-1].split(';')
        self.switches += int(sw)
        for v in vis.split():
            v = int(v); ev.append(dict(op='visit', p=pt(v) if (v >= 1000) == (cfg['sel']['k'] == 'B' and cfg['sel']['i']['k'] in 'AP') else [-9, -9]))
        ev.append(dict(op='ret' if st == 'ok' else 'raised', cells=[int(x) for x in cells.split()], out='nodata' not in script))
        return ev
def run(c):
    p = c.build('d_raytrace')
    K = 'CONSTANTS Threads = {%s}\nNPix = 4\nCHECK_DEADLOCK FALSE\n'
    inv = 'INVARIANTS AtMostOnce AllOnceAtEnd NeverWrongCell NoRaceOnCell\n'
    c.model_check('RayTrace', K % ('0,1,2' if c.thorough else '0,1') + 'INIT InitMc\nNEXT Next\nVIEW view\n' + inv)
    cfgs = c.generate('RayTrace', K % '0' + 'INIT InitAll\nNEXT NoNext\nINVARIANT EmitCfg\n')
    scheds = []
    for th in ('0,1', '0,1,2', '0,1,2,3'):
        scheds += c.generate('RayTrace', K % th + 'INIT InitMc\nNEXT Next\nINVARIANT EmitSched\n', simulate=300 if c.thorough else 60, depth=80)
    seen = {}
    for x in cfgs: seen[json.dumps(x, sort_keys=True)] = x
    cfgs = [seen[k] for k in sorted(seen)]
    c.extra['configurations'] = len(cfgs)
    dec = Dec(); scripts = []
    def add(cfg, sc):
        dec.cfgs[dec.key(sc)] = cfg; scripts.append(sc)
    QS = ['all', 'I', 'I,t,S', 'B,C', 'u1,u2,u3,u4,u5', 'Q,U,V,S', 'f,d,r']
    pick = cfgs
    if not c.thorough:
        from p16 import length
        pool = {}
        for x in cfgs:
            if length(x['sel']) > 2 or c.rng.random() < .2: pool.setdefault((x['mask'] == 'none', len(x['keep'])), []).append(x)
        pick = []
        for k, n in (((True, 0), 800), ((False, 5), 400), ((False, 2), 150), ((False, 0), 100)): pick += c.rng.sample(pool[k], min(n, len(pool[k])))
    for cfg in pick:
        add(cfg, mk(cfg, 1, None, 1, c.rng.choice(QS)))
        for _ in range(2 if c.thorough else 1):
            s = c.rng.choice(scheds); n = c.rng.choice([2, 3, 4])
            add(cfg, mk(cfg, n, s * c.rng.choice([1, 4]), c.rng.choice([1, 2, 5, 15, 40]), c.rng.choice(QS)))
    # the model's configurations under every generated schedule, and with thread creation failing
    from p16 import length as _n
    base = [x for x in cfgs if _n(x['sel']) > 1]
    for s in scheds:
        cfg = c.rng.choice(base)
        add(cfg, mk(cfg, c.rng.choice([2, 3, 4]), s * 3, c.rng.choice([1, 3, 10])))
    for k in range(60):
        cfg = c.rng.choice(base); n = c.rng.choice([2, 3, 4])
        add(cfg, mk(cfg, n, c.rng.choice(scheds), 3, fail=c.rng.randrange(n - 1)))
    for k in range(60):
        cfg = c.rng.choice(base)
        add(cfg, mk(cfg, c.rng.choice([1, 2, 3]), c.rng.choice(scheds), 3, q='I') + ['nodata'])
    c.conform('d_raytrace', p, scripts, line, dec, 'RayTraceTrace', K % '0,1,2,3' + 'INIT TInit\nNEXT TNext\nINVARIANT Accepted\n', 'ray-tracing call',
              describe=lambda s, ev, pos: '%s -> %s' % (s, json.dumps(ev[pos])[:600]))
    c.extra['thread_switches'] = dec.switches
    c.assumptions += ['control changes hands at mutex operations, thread start/end, join and inside the object, not at arbitrary instructions']
