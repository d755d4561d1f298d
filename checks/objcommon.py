"""Scripts and observations of the object model (spec/ObjectModel.tla)."""
import json, os, re
from kinds import units_of, MASSES, G_C2, K, PRELUDE, ENV, REFPROPS, derived, envlines

MORE_ON = [False]   # also the properties not varied in rendering
def alts_of(k): return k['alts'] + (k.get('more', []) if MORE_ON[0] else [])

def props_of(k):
    """properties in table order: base order first, then the others; derived ones last"""
    names, base = [], dict(k['base'])
    for p, v in k['base']: names.append(p)
    for p, vs in alts_of(k):
        if p not in names: names.append(p)
    der = [d for m, d, v in derived(k['kind'], names)]
    names = [n for n in names if n not in der] + [n for n in names if n in der]
    b = {n: base.get(n, '~') for n in names}
    for m, d, v in derived(k['kind'], names):
        if m in base and d not in base: b[d] = v
    return names, b

def table(c, kinds, size, badsize=0, bads=None, shuffle=True, filt=None, pairgroups=None):
    out = []
    for n in kinds:
        k = K[n]
        names, b = props_of(k)
        pairs = [[p, v] for p, vs in alts_of(k) for v in vs if not filt or filt(n, p, v)]
        if shuffle: c.rng.shuffle(pairs)
        groups = []
        if pairgroups: groups, bg = pairgroups(n, pairs); pairs = []
        # two values of the same property may meet in a group, but each group has settings of different properties when possible
        while pairs:
            g, rest = [], []
            for x in pairs:
                if len(g) < size and (all(y[0] != x[0] for y in g) or c.rng.random() < .15): g.append(x)
                else: rest.append(x)
            groups.append(g); pairs = rest
        bl = list((bads or {}).get(n, []))
        idx = list(range(1, len(bl) + 1))
        if shuffle: c.rng.shuffle(idx)
        if not pairgroups: bg = [idx[i:i + badsize] for i in range(0, len(idx), badsize)] if badsize else []
        m = max(len(groups), len(bg), 1)
        while len(groups) < m: groups.append(c.rng.choice(groups) if groups else [])
        while len(bg) < m: bg.append([])
        out.append(dict(name=n, mut=k.get('mut', True), props=[dict(n=p, ref=p in REFPROPS, base=b[p]) for p in names],
                        derived=[list(x) for x in derived(k['kind'], names)], groups=groups, badgroups=bg))
    t = dict(kinds=out, env={e: v for e, (p, v) in ENV.items()})
    f = os.path.join(c.scratch, 'kinds.json')
    json.dump(t, open(f, 'w'))
    return t, f

def cfg(maxlen, ops, nslots=1, extra=''):
    return 'CONSTANTS MaxLen = %d\nNSlots = %d\nOps = {%s}\nCHECK_DEADLOCK FALSE\n' % (maxlen, nslots, ', '.join('"%s"' % o for o in ops)) + extra
TCFG = cfg(1, [], 3, 'INIT TInit\nNEXT TNext\nINVARIANT Accepted\n')

def names_of(kind): return props_of(K[kind])[0]
def refval(x, pref):
    """value of a reference property in a reference object -> (lines, name)"""
    m = re.match(r'(\w+)@(.*)$', x)
    if not m: return [], x
    nm = '%s_%s' % (pref, m.group(1))
    return envlines(m.group(1), nm, m.group(2)), nm
def reference(kind, conf, name='ref'):
    k = K[kind]
    lines = ['new %s %s %s' % (name, k['cat'], k['kind'])]
    for i, (p, x) in enumerate(conf):
        if p in REFPROPS:
            l, nm = refval(x, '%s%d' % (name, i)); lines = l + lines + ['set %s %s %s' % (name, p, nm)]
        else: lines.append('set %s %s %s' % (name, p, x))
    return lines

class Replayer:
    """follows the specification's state while turning a behaviour into driver lines"""
    def __init__(self, tol=1e-9, bads=None, after=('same',), rng=None, neg=None, types=None):
        """rng: draw how each value is set (plain, as text, under the other name of a boolean, in another unit);
        neg: kind -> {property: its other name}"""
        self.tol, self.bads, self.after, self.rng, self.neg, self.types = tol, bads or {}, after, rng, neg or {}, types or {}
    def length(self, v):
        m = v.get('Metric', '').split('@')[0]
        return G_C2 * MASSES[m] if m in MASSES else None
    def distance(self, v):
        d = v.get('Distance', '~')
        return float(d) if d not in ('~', 'auto') else None
    def how(self, kind, p, x, v):
        if not self.rng or p in REFPROPS: return None
        ways = [None, 'text']
        if p in self.neg.get(kind, {}): ways += ['alias', 'alias']
        u = units_of(p, self.length(v), self.distance(v))
        if u: ways += [self.rng.choice(u), self.rng.choice(u)]
        return self.rng.choice(ways)
    def expand(self, beh):
        """behaviour -> list of steps with explicit checks; the model state is recomputed here only to
        build reference objects, the trace specification recomputes it independently"""
        kind = beh[0]['kind']; k = K[kind]
        names, base = props_of(k)
        der = derived(k['kind'], names)
        env = {e: v[0] for e, (p, v) in ENV.items()}
        st = {'a': dict(base)}
        fro = lambda x: '%s@%s' % (x, env[x]) if x in env else x
        def conf(s):
            r = []
            for p in names:
                x = st[s][p]
                if p in REFPROPS: x = fro(x)
                if x not in ('~', 'auto'): r.append([p, x])
            return r
        out = []
        for h in beh:
            h = dict(h); h['_kind'] = kind
            out.append(h)
            op = h['op']
            if op == 'set':
                h['_how'] = self.how(kind, h['p'], h['x'], st[h['s']])
                st[h['s']][h['p']] = h['x']
                for a, d, v in der:
                    if a == h['p']: st[h['s']][d] = v
            elif op == 'mut': env[h['e']] = h['x']
            elif op == 'own': st[h['s']][h['p']] = '%s@%s' % (h['e'], h['x'])
            elif op in ('clone', 'xml'): st[h['t']] = {p: (fro(x) if p in REFPROPS else x) for p, x in st[h['s']].items()}
            elif op == 'del': st.pop(h['s'])
            last = h is out[-1] and h['op'] == beh[-1]['op'] and len([1 for x in out if x['op'] not in ('same', 'reads', 'xmlfix')]) == len(beh)
            for a in self.after:
                if (a == 'same' and op != 'init') or (a == 'same-end' and last): out += [dict(op='same', s=s, cfg=conf(s), _kind=kind) for s in sorted(st)]
                if a == 'same-pairs' and last: out += [dict(op='same', s=s, cfg=conf(s), _kind=kind) for s in sorted(st)]
                if a == 'same-copy' and op in ('clone', 'xml'): out.append(dict(op='same', s=h['t'], cfg=conf(h['t']), _kind=kind))
                if a == 'same-bad' and op == 'bad': out.append(dict(op='same', s=h['s'], cfg=conf(h['s']), _kind=kind))
                if a == 'reads' and op != 'init' or (a == 'reads-end' and last): out += [dict(op='reads', s=s, _kind=kind, _L=(self.length(st[s]), self.distance(st[s]))) for s in sorted(st)]
                if a == 'xmlfix' and op == 'xml': out.append(dict(op='xmlfix', s=h['t'], _kind=kind))
        return out
    def line(self, h):
        op, kind = h['op'], h['_kind']; k = K[kind]
        if op == 'init':
            return PRELUDE + ['new a %s %s' % (k['cat'], k['kind']), 'rawreads a ' + ' '.join(names_of(kind))] + ['set a %s %s' % x for x in k['base']]
        if op == 'set':
            w, x = h.get('_how'), h['x']
            if w == 'alias': return ['set %s %s %s' % (h['s'], self.neg[kind][h['p']], 'false' if x == 'true' else 'true')]
            if w == 'text':
                n = h['p']
                if n in self.neg.get(kind, {}): return ['setp %s %s _' % (h['s'], n if x == 'true' else self.neg[kind][n])]
                return ['setp %s %s %s' % (h['s'], n, x.replace(',', '~'))]
            if w: return ['set %s %s %s %s' % (h['s'], h['p'], ','.join(repr(float(y) / w[1]) for y in x.split(',')), w[0])]
            return ['set %s %s %s' % (h['s'], h['p'], h['x'])]
        if op == 'mut': return ['set %s %s %s' % (h['e'], ENV[h['e']][0], h['x'])]
        if op == 'own': return ['own %s %s %s %s' % (h['s'], h['p'], ENV[h['e']][0], h['x'])]
        if op in ('clone', 'xml'): return ['%s %s %s' % (op, h['s'], h['t'])]
        if op == 'del': return ['del ' + h['s']]
        if op == 'bad': return [self.bads[kind][h['i'] - 1] % dict(s=h['s'])]
        if op == 'same': return reference(kind, h['cfg']) + ['same %s ref %g' % (h['s'], self.tol), 'del ref']
        if op == 'reads':
            r = ['rawreads %s ' % h['s'] + ' '.join(names_of(kind))]
            if self.rng:
                r += ['rawreads %s ' % h['s'] + ' '.join(self.neg[kind].get(n, n) for n in names_of(kind))]
                r += ['get %s %s %s' % (h['s'], n, u) for n in names_of(kind) for u, f in units_of(n, *h['_L'])]
            return r
        if op == 'xmlfix': return ['xmlfix ' + h['s']]
        raise ValueError(op)
    def decode(self, script, obs):
        ev, defaults = [], {}
        for h, o in zip(script, obs):
            op, kind = h['op'], h['_kind']; k = K[kind]
            e = {a: b for a, b in h.items() if a[0] != '_'}
            if h.get('_how'): e['how'] = h['_how'] if isinstance(h['_how'], str) else h['_how'][0]
            bad = [x for x in o if not x.startswith('ok')]
            if op == 'init':
                defaults = dict(zip(names_of(kind), o[len(PRELUDE) + 1].split()[1:]))
                e['res'] = 'ok' if not bad else bad[0]
            elif op == 'same':
                e['res'] = ('reference ' + bad[0]) if bad else o[-2][3:]
            elif op == 'xmlfix': e['res'] = o[0][3:] if not bad else bad[0]
            elif op == 'bad': e['res'] = o[0].split()[0]
            elif op == 'reads':
                if bad and self.rng: bad = []
                pool = dict(k['base']); alts = {}
                for q, vs in alts_of(k): alts.setdefault(q, []).extend(vs)
                e['r'] = []
                raw = o[0].split()[1:]
                e['raw'] = [[n, x] for n, x in zip(names_of(kind), raw)]
                for n, x in zip(names_of(kind), raw):
                    toks = set(alts.get(n, [])) | ({pool[n]} if n in pool else set())
                    m = [t for t in toks if match(t, x)]
                    if n in REFPROPS: m = [x]
                    if match(defaults.get(n, ''), x): m.append('~')
                    e['r'].append(m)
                if self.rng:   # the same through the other name of booleans, and in other units
                    for i, (n, x) in enumerate(zip(names_of(kind), o[1].split()[1:])):
                        if n in self.neg[kind] and x != {'true': 'false', 'false': 'true'}.get(raw[i]):
                            e['r'][i] = []; e['raw'][i].append('%s reads %s' % (self.neg[kind][n], x))
                    j = 2
                    for i, n in enumerate(names_of(kind)):
                        for u, f in units_of(n, *h['_L']):
                            y = o[j].split()[1:]; j += 1
                            y = [t for t in y if not re.match(r'^n\d+$', t)]
                            try: z = [float(t) * f for t in y]; w = [float(t) for t in raw[i].split(',')]; good = len(z) == len(w) and all(close(a, b) for a, b in zip(z, w))
                            except ValueError: good = False
                            if not good: e['r'][i] = []; e['raw'][i].append('in %s reads %s' % (u, o[j - 1]))
            else: e['res'] = 'ok' if not bad else bad[0]
            ev.append(e)
        return ev
def close(a, b): return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
def match(tok, raw):
    if tok == raw: return True
    try: a = [float(x) for x in tok.split(',')]; b = [float(x) for x in raw.split(',')]
    except ValueError: return False
    if len(a) < len(b): a = a + [0.] * (len(b) - len(a))
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
def describe(script, ev, pos):
    e = ev[pos]
    h = [' '.join(str(x[f]) for f in ('op', 's', 't', 'e', 'p', 'x', 'i') if f in x) for x in ev[:pos] if x['op'] not in ('same', 'reads', 'xmlfix', 'init')]
    return '%s: after [%s], %s gives %s' % (ev[0].get('kind'), '; '.join(h), ' '.join(str(e[f]) for f in ('op', 's', 't', 'p', 'x', 'i') if f in e), e.get('res', e.get('raw', e)))

def negations(c, p, kinds):
    """kind -> {boolean property: its other name}, and kind -> {property: type}, as the code declares them"""
    scripts = [PRELUDE + ['new a %s %s' % (K[n]['cat'], K[n]['kind'])] + ['set a %s %s' % x for x in K[n]['base']] + ['props a'] for n in kinds]
    neg, types = {}, {}
    for n, (obs, st) in zip(kinds, c.replay(p, 'd_object', scripts)):
        neg[n], types[n] = {}, {}
        for w in obs[-1].split()[1:]:
            nm, ty, ng, u = w.split('=', 1)[0].split(':')[:4]
            types[n][nm] = (ty, u)
            if ty == 'bool' and ng: neg[n][nm] = ng
    return neg, types
