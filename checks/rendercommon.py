"""Renderings of real sceneries (spec/Render.tla): shared by P02, P03, P04, P27."""
import json, os
import scenes
N = 5
def sc(n): return scenes.SCENES.get(n) or scenes.TORUS[n]
NONE = {'EmissionTime', 'MinDistance', 'FirstDistMin', 'ImpactCoords'}
def nothing(q, v): return all(x == (1.7976931348623157e+308 if q in NONE else 0.) for x in v)
def close(a, b, tol):
    if len(a) != len(b): return False
    m = max([abs(x) for x in b] + [1e-300])
    return all(x == y or abs(x - y) <= tol * max(abs(y), m * 1e-3) for x, y in zip(a, b))
def consts(n, hows, workers, ops, dl='FALSE', quants='{"I", "R"}'):
    return 'CONSTANTS N = %d\nQuants = %s\nWorkers = {%s}\nHows = {%s}\nMaxOps = %d\nCHECK_DEADLOCK %s\n' % (n, quants, ', '.join(str(w) for w in workers), ', '.join('"%s"' % h for h in hows), ops, dl)
def model(c, hows=('grid', 'reuse'), ops=2):
    c.model_check('Render', consts(2, hows, (1, 2), ops + (1 if c.thorough else 0)) + 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS TypeOk Once\nPROPERTY Functional\n')
class Scenes:
    """XML files of the scenes and the reference value of each pixel, from a fresh scenery computing that pixel only"""
    def __init__(self, c, p, names, driver='d_render'):
        self.c = c; self.p = p; self.names = names; self.file = {}; self.ref = {}
        for n in names:
            f = os.path.join(c.scratch, n + '.xml'); open(f, 'w').write(sc(n)['xml']); self.file[n] = f
        jobs = [(n, k) for n in names for k in range(N * N)]
        res = c.replay(p, driver, [['load %s %d' % (self.file[n], N)] + (['unit ' + sc(n)['unit']] if 'unit' in sc(n) else []) + ['render one 1 %s %d %d' % (','.join(sc(n)['quantities']), k % N + 1, k // N + 1)] for n, k in jobs])
        for (n, k), (obs, st) in zip(jobs, res):
            if st != 'ok' or len(obs) < 2 or not obs[-1].startswith('ok '):
                self.ref[n, k + 1] = None   # this pixel cannot be computed on its own
            else:
                self.ref[n, k + 1] = parse(obs[-1])[1][0][1]
    def dead(self, n): return [k for k in range(1, N * N + 1) if self.ref[n, k] is None]
    def missed(self, n, k):
        v = self.ref[n, k].get('ImpactCoords'); return v is not None and v[0] == 1.7976931348623157e+308
    def match(self, n, q, v, tol):
        return ([0] if nothing(q, v) else []) + [k for k in range(1, N * N + 1) if self.ref[n, k] is not None and q in self.ref[n, k] and close(v, self.ref[n, k][q], tol)]
def parse(o):
    parts = o.split(' | '); head = parts[0].split(); cells = []
    for x in parts[1:]:
        w = x.split(); i, j = int(w[0]), int(w[1]); v = {}; k = 2
        while k < len(w):
            m = int(w[k + 1]); v[w[k]] = [float('nan') if y in ('nan', 'unset') else float(y) for y in w[k + 2:k + 2 + m]]; k += 2 + m
        cells.append(((j - 1) * N + i, v))
    return head, cells
def shape(rng, sh):
    """pixels (in order of iteration) and, for grids, the bounds"""
    r = lambda: rng.randint(1, N)
    if sh == 'all': b = (1, N, 1, 1, N, 1)
    elif sh == 'row': j = r(); b = (1, N, 1, j, j, 1)
    elif sh == 'column': i = r(); b = (i, i, 1, 1, N, 1)
    elif sh in ('grid', 'stepped'):
        i, j = sorted((r(), r())), sorted((r(), r())); d = (1, 1) if sh == 'grid' else (rng.randint(1, 3), rng.randint(1, 3)); b = (i[0], i[1], d[0], j[0], j[1], d[1])
    else: b = None
    if b: return b, [(i, j) for j in range(b[3], b[4] + 1, b[5]) for i in range(b[0], b[1] + 1, b[2])]
    if sh == 'single': return None, [(r(), r())]
    px = [(i, j) for j in range(1, N + 1) for i in range(1, N + 1)]
    if sh == 'rlist': px = px[::-1] if rng.random() < .3 else px
    else: rng.shuffle(px)
    return None, px[:rng.randint(2, 12)]
def concrete(rng, name, h):
    """fill in what the model leaves open"""
    qq = sc(name)['quantities']; h = dict(h)
    if h['op'] in ('render', 'record'):
        b, px = shape(rng, h['sh']); how = h['how'] if h['op'] == 'render' else 'grid'
        qs = qq
        if h['op'] == 'record': q = []
        elif how == 'reuse': qs = [x for x in qs if x not in ('MinDistance', 'FirstDistMin', 'NbCrossEqPlane')]; q = qs if h['k'] == 0 else [x for x in qs if rng.random() < .5] or [rng.choice(qs)]
        else: q = qs if h['k'] == 0 else [x for x in qs if rng.random() < .5] or [rng.choice(qs)]
        via = how
        if how == 'reuse': via = rng.choice(['grid', 'image', 'bucket', 'one'])
        if via in ('grid', 'image') and b is None: via = 'bucket'
        h.update(px=px, b=b, q=q, via=via, w=1 if via in ('one', 'direct') else h['w'])
    if h['op'] == 'mask':
        allp = list(range(1, N * N + 1)); h['m'] = [] if h['k'] == 0 else [x for x in allp if x % 2 == 0] if h['k'] == 1 else [x for x in allp if x > N] if h['k'] == 2 else [x for x in allp if x in (1, 13)]
    return h
def line(h):
    if h['op'] == 'load': return 'load %s %d' % (h['file'], N)
    if h['op'] == 'clone': return 'clone 1'
    if h['op'] == 'swap': return 'swap'
    if h['op'] == 'mask': return 'mask ' + ' '.join(str(x - 1) for x in h['m'])
    sel = ' '.join(map(str, h['b'])) if h['via'] in ('grid', 'image') else ' '.join('%d %d' % x for x in h['px'])
    return '%s %s %d %s %s' % ('record' if h['op'] == 'record' else 'reuse' if h.get('how') == 'reuse' else 'render', h['via'], h['w'], ','.join(h['q']) or 'none', sel)
def event(S, name, h, o, tol=1e-9):
    w = o.split(' ', 2); e = dict(op=h['op'], res=w[0], text=o[:600])
    if h['op'] == 'mask': e['m'] = h['m']
    if h['op'] in ('render', 'record'):
        e.update(s=[(j - 1) * N + i for i, j in h['px']], Q=h['q'], how=h.get('how', 'grid'), via=h['via'], w=h['w'], stray=True, cells=[])
        if w[0] == 'ok':
            head, cells = parse(o); t = 1e-4 if h['via'] in ('angles', 'direct') else tol
            e['stray'] = head[1] != 'clean'
            e['cells'] = [dict(p=p, missed=S.missed(name, p) if h.get('how') == 'reuse' else False, v=[dict(q=q, m=S.match(name, q, v[q], t)) for q in v]) for p, v in cells]
    return e
def describe(script, ev, pos):
    e = ev[pos]; bad = [(c['p'], [x['q'] for x in c['v'] if c['p'] not in x['m']]) for c in e.get('cells', [])]
    return 'scene %s, after %s: %s %s gave wrong values at %s (%s)' % (script[0]['name'], [h['op'] for h in script[1:pos]], script[pos].get('how', script[pos]['op']) if pos < len(script) else '', line(script[pos])[:200] if pos < len(script) else e, [b for b in bad if b[1]][:6], e.get('text', e)[:200] if isinstance(e.get('text', ''), str) else e)
