import math, json
D = 6000
BIG = 2000000001
C = 299792458.
def q(x):
    """position in units of 1/D, or a value no model state has"""
    if x is None or not math.isfinite(x): return BIG
    if abs(x) > 1e9: return BIG
    y = x * D; r = round(y)
    return r if abs(r) < BIG and abs(y - r) <= 1e-6 + 2e-11 * abs(y) else BIG
def lg(x): return math.log10(x) if x > 0 else None
def consts(n, ops, us, cs, ks, deadlock=False):
    st = lambda xs: '{%s}' % ', '.join('"%s"' % x for x in xs)
    return 'CONSTANTS MaxOps = %d\nOps = %s\nUs = %s\nCs = %s\nCopies = %s\nCHECK_DEADLOCK %s\n' % (n, st(ops), st(us), st(cs), st(ks), 'TRUE' if deadlock else 'FALSE')
class Spec:
    def __init__(self, us, cs, ks, rng): self.us, self.cs, self.ks, self.rng = us, cs, ks, rng
    def prep(self, beh):
        out = [dict(op='start')]
        for h in beh:
            h = dict(h); h['_how'] = self.rng.choice('pid')
            out.append(h)
        return out
    def line(self, h):
        op = h['op']
        obs = ['obs ' + x for x in self.us + self.cs + self.ks]
        if op == 'start': return ['newu ' + u for u in self.us] + ['newc ' + c for c in self.cs]
        w = '.'.join([h['r']] + [str(i - 1) for i in h.get('path', [])])
        how = h['_how']
        if op == 'n': l = 'n %s %d %s' % (w, h['n'], how)
        elif op == 'kind': l = 'kind %s %s %s' % (w, h['k'], how)
        elif op == 'band': l = 'band %s %d %d %s %s' % (w, h['b'][0], h['b'][1], h['u'], how)
        elif op == 'badband': l = 'band %s 1 2 %s %s' % (w, h['u'], how)
        elif op == 'append': l = 'append %s %s' % (w, h['x'])
        elif op == 'remove': l = 'remove %s %d' % (w, h['i'] - 1)
        elif op == 'badindex': l = ('get %s end' if h['how'] == 'get' else 'badremove %s') % w
        elif op in ('clone', 'xml'): l = '%s %s %s' % (op, w, h['k'])
        elif op == 'renew': l = 'newu ' + w
        elif op == 'make': l = 'makeu %s %d %d %d %s' % (w, h['n'], h['b'][0], h['b'][1], h['k'])
        elif op == 'drop': l = 'del ' + w
        return [l] + obs
    def decode(self, script, obs):
        ev = []
        for h, o in zip(script, obs):
            if h['op'] == 'start': continue
            e = {a: b for a, b in h.items() if a[0] != '_'}
            e['res'] = o[0].split()[0]; e['text'] = o[0]
            e.setdefault('path', [])
            e['obs'] = []
            for r, x in zip(self.us + self.cs + self.ks, o[1:]):
                w = x.split()
                if w[0] == 'dead': e['obs'].append(dict(r=r, dead=True)); continue
                d = dict(r=r, dead=False, kind='?', n=-1, b=[], ind=[], mid=False, width=False, unit=False, told=False, card=-1, band=[], inunit=[])
                e['obs'].append(d)
                if w[1] == 'badindex': continue
                d['kind'] = w[1]; n, nb = int(w[2]), int(w[3]); d['n'] = n
                b = [float(y) for y in w[4:4 + nb]]
                d['b'] = [[q(y), q(lg(y)), q(C / y if y else None), q(lg(C / y) if y > 0 else None)] for y in b]
                k = 4 + nb; ci = [int(y) for y in w[k:k + 2 * n]]; d['ind'] = [[ci[2 * i], ci[2 * i + 1]] for i in range(n)]
                k += 2 * n
                d['mid'], d['width'], d['unit'], d['told'] = [y == '1' for y in w[k:k + 4]]
                d['card'] = int(w[k + 4]); k += 5
                if k < len(w):
                    d['band'] = [q(float(w[k])), q(float(w[k + 1]))]; k += 2
                    while k < len(w): d['inunit'].append(dict(u=w[k], v=[q(float(w[k + 1])), q(float(w[k + 2]))])); k += 3
            ev.append(e)
        return ev
def describe(script, ev, pos):
    h = [json.dumps({k: v for k, v in x.items() if k not in ('obs', 'res', 'text')}) for x in ev[:pos + 1]]
    e = ev[pos]
    return 'after %s: %s; %s' % (' '.join(h), e.get('text'), json.dumps(e.get('obs', e))[:900])
