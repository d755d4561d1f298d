"""P23: units (spec/Units.tla)."""
import json, os, math
B, C, EV = 3.7, 299792458., 2.417989348e+14
CONST = ['min', 'd', 'au', 'pc', 'ly', 'Rs', 'Ms', 'J']       # constants met in the table, exponents 5..
SIZE = 4 + len(CONST)
def vec(e=0, k=None): v = [0] * SIZE; v[1] = e; (k and v.__setitem__(4 + CONST.index(k), 1)); return v
UN = {'': ('X', vec()), 'geometrical': ('X', vec()), 'geometrical_time': ('X', vec()), 'nonsense': ('X', vec()), 'm/': ('X', vec()),
      'm': ('L', vec()), 'cm': ('L', vec(-2)), 'km': ('L', vec(3)), 'nm': ('L', vec(-9)), 'sunradius': ('L', vec(0, 'Rs')), 'au': ('L', vec(0, 'au')), 'AU': ('L', vec(0, 'au')), 'pc': ('L', vec(0, 'pc')), 'kpc': ('L', vec(3, 'pc')), 'ly': ('L', vec(0, 'ly')), 'astronomicalunit': ('L', vec(0, 'au')),
      's': ('T', vec()), 'ms': ('T', vec(-3)), 'min': ('T', vec(0, 'min')), 'd': ('T', vec(0, 'd')),
      'Hz': ('F', vec()), 'kHz': ('F', vec(3)), 'GHz': ('F', vec(9)), 'eV': ('E', vec()), 'keV': ('E', vec(3)), 'J': ('E', vec(0, 'J')),
      'kg': ('M', vec()), 'g': ('M', vec(-3)), 'sunmass': ('M', vec(0, 'Ms')), 'K': ('A', vec()), 'sr': ('A2', vec()), 'm3': ('A3', vec())}
PROPS = {'Screen.Distance': 'Meters', 'Screen.Time': 'Seconds', 'Screen.FreqObs': 'Herz', 'ThinDisk.InnerRadius': 'Geometrical', 'ThinDisk.OuterRadius': 'Geometrical', 'ThinDisk.Thickness': 'Geometrical', 'Star.Radius': 'Geometrical',
         'FixedStar.RMax': 'Geometrical', 'Star.DeltaMaxInsideRMax': 'Geometrical', 'InflateStar.RadiusStop': 'Geometrical', 'InflateStar.TimeInflateInit': 'GeometricalTime'}
def cfg(n, ops, extra, dl='FALSE'): return 'CONSTANTS MaxOps = %d\nOps = {%s}\nCHECK_DEADLOCK %s\n' % (n, ', '.join('"%s"' % o for o in ops), dl) + extra
class Num:
    def __init__(self, const): self.cons = [B, 10., C, EV] + const; self.L = [math.log(abs(x)) for x in self.cons]; self.cache = {}; self.build()
    def build(self):   # everything but the power of ten
        self.combos = []
        import itertools
        k = len(CONST); ks = [[0] * k]
        for i in range(k):
            for a in (1, -1):
                v = [0] * k; v[i] = a; ks.append(v)
                for j in range(i):
                    for b in (1, -1): w = list(v); w[j] = b; ks.append(w)
        for s in (1, -1):
            for c in (0, 1, -1, 2, -2):
                for e in (0, 1, -1):
                    for v in ks:
                        x = s * self.L[0] + c * self.L[2] + e * self.L[3] + sum(a * b for a, b in zip(v, self.L[4:]))
                        self.combos.append((x % self.L[1], x, s, c, e, v))
        self.combos.sort(key=lambda t: t[0]); self.keys = [t[0] for t in self.combos]
    def value(self, m): return math.exp(sum(a * b for a, b in zip(m, self.L)))
    def near(self, x, m):
        """does x have exponents m ?"""
        return x > 0 and abs(math.log(x) - sum(a * b for a, b in zip(m, self.L))) < 1e-9
    def exps(self, x):
        if not (x > 0 and math.isfinite(x)): return [7777] * SIZE
        import bisect
        lx = math.log(x); r = lx % self.L[1]; best = None
        for off in (0., self.L[1], -self.L[1]):
            i = bisect.bisect_left(self.keys, r + off - 1e-9)
            while i < len(self.keys) and self.keys[i] <= r + off + 1e-9:
                _, y, s, c, e, v = self.combos[i]; i += 1
                t = round((lx - y) / self.L[1])
                if abs(lx - y - t * self.L[1]) < 1e-9 * max(1., 1.):
                    w = abs(c) + abs(e) + sum(map(abs, v))
                    if best is None or w < best[0]: best = (w, [s, t, c, e] + v)
        return best[1] if best else [8888] * SIZE
def run(c):
    p = c.build('d_units')
    q = ['min>s', 'd>s', 'au>m', 'parsec>m', 'light_year>m', 'J>eV']
    r = c.replay(p, 'd_units', [['const ' + ' '.join(q)]])[0][0][0].split()[1:]
    num = dict(zip(['min', 'd', 'au', 'pc', 'ly', 'J'], map(float, r))); num.update(Rs=6.955e8, Ms=1.98843e30)
    N = Num([num[k] for k in CONST])
    dims = {'A2': 'A', 'A3': 'A'}
    def table(name, units=None, laws=False, props=PROPS):
        us = {k: dict(dim=v[0], vec=v[1]) for k, v in UN.items() if units is None or k in units}
        f = os.path.join(c.scratch, name); json.dump(dict(units=us, size=SIZE, laws=laws, props=props), open(f, 'w')); return {'UTAB': f}
    allp = ['to', 'from', 'convert', 'fresh', 'mass', 'set', 'read']
    few = ['', 'geometrical', 'geometrical_time', 'm', 'km', 'au', 's', 'min', 'Hz', 'keV', 'kg', 'nonsense']
    c.model_check('Units', cfg(1, ['to'], 'INIT Init\nNEXT Next\n'), env=table('u0.json', laws=True))
    c.model_check('Units', cfg(4 if c.thorough else 3, allp, 'INIT Init\nNEXT Next\nVIEW View\n'), env=table('u1.json', units=few, props={'Screen.Distance': 'Meters', 'ThinDisk.InnerRadius': 'Geometrical'}))
    beh = []
    env = table('u2.json')
    beh += c.generate('Units', cfg(3 if c.thorough else 2, ['fresh', 'to', 'from', 'convert'], 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), env=env, workers=4)
    for k in range(4):   # walks over parts of the table
        us = ['', 'geometrical', 'geometrical_time', 'm', 's', 'Hz', 'kg'] + c.rng.sample([u for u in UN if u not in ('', 'geometrical', 'geometrical_time', 'm', 's', 'Hz', 'kg')], 6)
        ps = dict(c.rng.sample(sorted(PROPS.items()), 4))
        beh += c.generate('Units', cfg(16, allp, 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), simulate=1200 if c.thorough else 200, depth=18, env=table('w%d.json' % k, units=us, props=ps))
    rng = c.rng
    # the driver is told the numbers: the decoder follows the values the code gave, exactly as a caller chaining calls would
    def lines(beh):
        unit, m, g, out, first = 'm', [1] + [0] * (SIZE - 1), 0, [dict(op='start', lines=['mass 0'])], True
        return out, beh
    # values are chained through the specification: each call is given the exact value of the model
    def neg(a): return [-x for x in a]
    def add(a, b): return [x + y for x, y in zip(a, b)]
    scripts = []
    for b in beh:
        st = dict(unit='m', val=[1] + [0] * (SIZE - 1), g=0, prop={}); out = [dict(op='start', lines=['mass 0'])]
        for h in b:
            h = dict(h); op = h['op']; v = '%.17g' % N.value(st['val']); cu = st['unit'] or '_'; x = None
            if op == 'to': l = '%s %s %s %s' % (op, h['f'], v, cu); x = conv_to(h['f'], st['val'], st['unit'], st['g']); nu = BASE[h['f']]
            elif op == 'from': l = '%s %s %s %s' % (op, h['f'], v, h['u'] or '_'); x = conv_from(h['f'], st['val'], h['u'], st['g']); nu = h['u']
            elif op == 'convert': l = 'convert %s %s %s %d' % (v, cu, h['u'] or '_', rng.randint(0, 3)); x = convert(st['val'], st['unit'], h['u']); nu = h['u']
            elif op == 'fresh': st['unit'] = h['u']; st['val'] = [1] + [0] * (SIZE - 1); l = 'mass %d' % st['g']
            elif op == 'mass': st['g'] = h['j']; l = 'mass %d' % h['j']
            elif op == 'set':
                l = 'set %s %s %s %d' % (h['p'], v, cu, rng.randint(0, 1)); y = conv_to(PROPS[h['p']], st['val'], st['unit'], st['g'])
                if y is not None: st['prop'][h['p']] = y
            elif op == 'read': l = 'read %s %s' % (h['p'], h['u'] or '_'); x = conv_from(PROPS[h['p']], st['prop'][h['p']], h['u'], st['g']); nu = h['u'] or BASE[PROPS[h['p']]]
            if x is not None: st['val'], st['unit'] = x, nu
            h['lines'] = [l]; h['_x'] = x; out.append(h)
        scripts.append(out)
    def decode(script, obs):
        ev = []
        for h, o in zip(script, obs):
            if h['op'] == 'start': continue
            e = {k: v for k, v in h.items() if k not in ('lines', '_x')}; w = o[0].split(); e['text'] = o[0][:200]; e['err'] = w[0] == 'error'; e['val'] = [9999] * SIZE
            if w[0] == 'ok' and len(w) > 1:
                x = float(w[1]); e['val'] = list(h['_x']) if h['_x'] is not None and N.near(x, h['_x']) else N.exps(x)
            elif w[0] == 'broken': e['op'] = 'broken'
            ev.append(e)
        return ev
    def describe(script, ev, pos): return ' | '.join(x['lines'][0] for x in script)[:900] + ' => ' + json.dumps(ev[pos])
    c.conform('d_units', p, scripts, lambda h: h['lines'], decode, 'UnitsTrace', cfg(1, [], 'INIT TInit\nNEXT TNext\n', 'TRUE'), 'units', describe=describe, tenv=env)
# the same conversions, to know which number to hand to the code at each step; the specification remains the judge of the answers
BASE = dict(Meters='m', Seconds='s', Kilograms='kg', Geometrical='geometrical', GeometricalTime='geometrical_time', Herz='Hz')
def _add(a, b, s=1): return [x + s * y for x, y in zip(a, b)]
def _neg(a): return [-x for x in a]
_C = [0, 0, 1] + [0] * (SIZE - 3); _E = [0, 0, 0, 1] + [0] * (SIZE - 4)
def _ul(g): return [0, g] + [0] * (SIZE - 2)
def conv_to(f, x, u, g):
    if u == '': return x
    d, v = UN[u]; y = _add(x, v)
    if f == 'Herz': return {'F': y, 'T': _neg(y), 'L': _add(_C, y, -1), 'E': _add(y, _E)}.get(d)
    if f == 'Meters':
        if u == 'geometrical': return _add(x, _ul(g))
        if d in 'FE': return _add(_C, conv_to('Herz', x, u, g), -1)
        return {'L': y, 'T': _add(y, _C)}.get(d)
    if f == 'Seconds':
        if u.startswith('geom'): return _add(_add(x, _ul(g)), _C, -1)
        return {'L': _add(y, _C, -1), 'T': y, 'F': _neg(y)}.get(d)
    if f == 'Kilograms': return y if d == 'M' else None
    if u == BASE[f]: return x
    if u.startswith('geom'): return None
    z = conv_to('Meters' if f == 'Geometrical' else 'Seconds', x, u, g)
    return z and (_add(z, _ul(g), -1) if f == 'Geometrical' else _add(_add(z, _ul(g), -1), _C))
def conv_from(f, x, u, g):
    if u == '': return x
    d, v = UN[u]
    if f == 'Herz': return {'F': _add(x, v, -1), 'T': _add(_neg(x), v, -1), 'L': _add(_add(_C, x, -1), v, -1), 'E': _add(_add(x, _E, -1), v, -1)}.get(d)
    if f == 'Meters':
        if u == 'geometrical': return _add(x, _ul(g), -1)
        if d in 'FE': return conv_from('Herz', _add(_C, x, -1), u, g)
        return {'L': _add(x, v, -1), 'T': _add(_add(x, _C, -1), v, -1)}.get(d)
    if f == 'Seconds':
        if u.startswith('geom'): return _add(_add(x, _C), _ul(g), -1)
        return {'L': _add(_add(x, _C), v, -1), 'T': _add(x, v, -1), 'F': _add(_neg(x), v, -1)}.get(d)
    if f == 'Kilograms': return _add(x, v, -1) if d == 'M' else None
    if u == BASE[f]: return x
    if u.startswith('geom'): return None
    return conv_from('Meters', _add(x, _ul(g)), u, g) if f == 'Geometrical' else conv_from('Seconds', _add(_add(x, _ul(g)), _C, -1), u, g)
def convert(x, a, b):
    if a == '' or b == '': return x
    if a.startswith('geom') or b.startswith('geom') or UN[a][0] == 'X' or UN[b][0] == 'X': return None
    y = _add(x, UN[a][1])
    if UN[a][0] == UN[b][0]: return _add(y, UN[b][1], -1)
    if {UN[a][0], UN[b][0]} == {'T', 'F'}: return _add(_neg(y), UN[b][1], -1)
    return None
