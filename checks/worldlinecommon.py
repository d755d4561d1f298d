"""Trajectories: scripts and observations of spec/Worldline.tla."""
import json, os
OFF = ['-60', '-20', '-5', '5', '20', '60']
SETS = [['Integrator', v] for v in ('runge_kutta_fehlberg78', 'runge_kutta_dopri5', 'runge_kutta_cash_karp54', 'runge_kutta_cash_karp54_classic', 'Legacy')] + \
    [['Delta', '0.3'], ['Delta', '2'], ['AbsTol', '1e-6'], ['AbsTol', '1e-9'], ['RelTol', '1e-5'], ['RelTol', '1e-9'], ['Adaptive', 'false'], ['Adaptive', 'true'],
     ['DeltaMax', '3'], ['DeltaMax', '10'], ['DeltaMaxOverR', '0.1'], ['DeltaMaxOverR', '1'], ['MaxIter', '40'], ['MaxIter', '500'], ['DeltaMin', '0.01'], ['CheckBasis', 'true'], ['MinimumTime', '-30'], ['MinimumTime', '-1000000']]
DATES = [['0'], ['-7'], ['7'], ['-7', '3', '12'], ['12', '3', '-7'], ['3', '3'], ['25', '-25'], ['3', '3.1', '3.2'], ['3.2', '3.1', '3'], ['-12.5', '12', '-12'], ['p0'], ['p1'], ['p0.5', '3', 'p0.25'], ['50', '-50', '3'], ['3', 'p0.7', '-7', '12']]
COMPS = ['bcdefgh', 'abcdefgh', 'bcd', 'bd', 'efgh', 'g', 'c', 'a', 'd', 'bcdefghijklmnop', 'abcdefghijklmnop', 'ijklmnop', 'ip', 'bcg', 'cdg']
MODES = ['list', 'list', 'one', 'cartesian', 'proper']
SPH = [('KerrBL', 'Spin', ['0.9', '0']), ('KerrBL', 'Spin', ['0.3', '-0.5']), ('KerrBL', 'GenericIntegrator', ['false', 'true']), ('Hayward', 'Charge', ['0.1', '0.4']), ('Hayward', 'Spin', ['0.1', '0.4']), ('RezzollaZhidenko', 'AParam', ['0.2,0.1,0,0', '0.4,0,0,0']),
       ('RezzollaZhidenko', 'BParam', ['0.2,0.1,0,0', '0.4,0,0,0']), ('RezzollaZhidenko', 'Epsilon', ['0.1', '0.3']), ('ReissnerNordstrom', 'Charge', ['0.2', '0.6']), ('ChernSimons', 'DzetaCS', ['0.1', '0.4']), ('ChernSimons', 'Spin', ['0.1', '0.3']),
       ('KonoplyaRezzollaZhidenko', 'Spin', ['0.2', '0.5']), ('KonoplyaRezzollaZhidenko', 'DeltasHorizon', ['0.1,0,0', '0,0.2,0']), ('KerrBL', 'DiffTol', ['0.01', '0.1']), ('KerrBL', 'HorizonSecurity', ['0.01', '3']), ('KerrBL', 'Mass', ['1', '2'])]
CART = [('KerrKS', 'Spin', ['0.9', '0']), ('KerrKS', 'Spin', ['0.3', '-0.5']), ('Shift:KerrKS', 'Offset', ['0,1,0.5,0', '0,-2,0,1'])]
VECS = {1: '0 20 1.4 0.3 -0.2 0.01 0.02', 2: '5 25 1.1 2 0.1 -0.01 0.015', 3: '0 15 1.8 6 -0.3 0.02 -0.03', 4: '-3 40 0.6 0.1 -0.9 0 0.002', 5: '0 20 0.15 6.1 -0.1 -0.05 0.01', 6: '2 30 2.95 0.05 -0.2 0.02 -0.002'}
STVECS = {1: '0 20 1.4 0.3 -0.02 0.001 0.01', 2: '5 25 1.1 2 0.02 -0.002 0.007', 3: '0 15 1.8 6 -0.03 0.002 -0.016', 4: '-3 30 1.5 0.1 0.1 0 0.006', 5: '0 20 0.1 6.2 -0.02 -0.012 0.003', 6: '2 30 3.0 0.02 0.01 0.006 -0.001'}
def table(c, **kw):
    t = dict(metrics=['g1', 'g2'], vecs=4, sets=SETS, offsets=OFF, queries=[]); t.update(kw)
    f = os.path.join(c.scratch, 'wl%d.json' % len(os.listdir(c.scratch))); json.dump(t, open(f, 'w')); return {'WLTAB': f}
def cfg(n, ops, kind, extra='', mode=None, dl='FALSE'):
    return 'CONSTANTS MaxOps = %d\nOps = {%s}\nKind = "%s"\n' % (n, ', '.join('"%s"' % o for o in ops), kind) + ('Mode = "%s"\n' % mode if mode else '') + 'CHECK_DEADLOCK %s\n' % dl + extra
class WL:
    """follows the state of the specification while turning a behaviour into driver lines"""
    def __init__(self, kind, rng, compare=0.): self.kind, self.rng, self.compare = kind, rng, compare
    def prep(self, beh):
        g1 = self.rng.choice(SPH + CART); fam = SPH if g1 in SPH else CART
        g2 = self.rng.choice(fam)
        out = [dict(op='start', lines=['def g%d %s %s %s' % (i, k, p, ' '.join(v)) for i, (k, p, v) in ((1, g1), (2, g2))] + ['new w ' + self.kind], met=[g1[:2], g2[:2]])]
        mj = dict(g1=1, g2=1); cur, own, vec, nm, pt, bas = '-', 0, 0, '', False, False; st, st0, since = [], [], []
        nref = 0; was = False   # the deprecated integrator has been in use
        def islegacy(): return any(n == 'Integrator' and v == 'Legacy' for n, v in st)
        def par(): return own if own else mj.get(cur, 0)
        def drop():
            nonlocal st0, since
            st0 = list(st); since = []
        def comparison():
            nonlocal nref
            nref += 1; r = 'r%d' % nref
            L = ['new %s %s' % (r, self.kind), 'mfresh %s %s %d' % (r, cur, par())] + (['ptrans %s 1' % r] if pt else []) + ['set %s %s %s' % (r, n, v) for n, v in st0] + ['vec %s %s %d' % (r, nm, pt and bas)]
            L += [x.replace(' w ', ' %s ' % r, 1) for x in since] + ['same w ' + r]
            out.append(dict(op='same', lines=L, conf=dict(g=cur, j=par(), vec=vec, pt=pt, bas=pt and bas), st0=[list(x) for x in st0], nsince=len(since)))
        for i, h in enumerate(beh):
            h = dict(h); op = h['op']; L = []
            drops = op in ('metric', 'own', 'init', 'reset') or (op == 'mset' and cur == h['g'] and not own) or (op == 'ptrans' and h['b'] != pt) or (op == 'copy' and self.kind == 'star')
            if since and cur != '-' and vec and (drops or i == len(beh) - 1 and op not in ('fill', 'query')) and self.rng.random() < self.compare: comparison()
            if op == 'metric': cur, own = h['g'], 0; L = ['metric w ' + cur]
            elif op == 'mset': mj[h['g']] = h['j']; L = ['mset %s %d' % (h['g'], h['j'])]
            elif op == 'own':
                if own: own = h['j']
                else: mj[cur] = h['j']
                L = ['own w %s %d' % (cur, h['j'])]
            elif op == 'init':
                vec = h['v']; nm = 'v%d_%d' % (vec, i); bas = pt
                L = ['init w %s %s %d' % (nm, (VECS if self.kind == 'photon' else STVECS)[vec], h['d'])]
            elif op == 'ptrans':
                if h['b'] != pt: bas = False
                pt = h['b']; L = ['ptrans w %d' % pt]
            elif op == 'reset': L = ['reset w']
            elif op == 'set':
                st = [x for x in st if x[0] != h['n']] + [[h['n'], h['v']]]; L = ['set w %s %s' % (h['n'], h['v'])]
                was |= islegacy()
            elif op == 'copy': own = par(); L = ['copy w old%d' % i] + (['clear w'] if self.kind == 'star' else [])
            elif op == 'fill': L = ['fill w ' + h['d']]; h['_no'] = (pt and islegacy()) or vec > 4 or (vec == 4 and h['d'] == '60')   # refused: not implemented; numerical failure near the axis; falls into the hole
            elif op == 'query':
                legacy = islegacy()
                m = h['m']
                if m == 'proper' and (legacy or was): m = 'list'
                if legacy or was: h['k'] = h['k'].replace('a', '') or 'b'   # no proper time
                if self.kind == 'star': h['k'] = ''.join(x for x in h['k'] if x < 'i') or 'b'
                if m == 'cartesian': k = h['k'] + 'def'
                else: k = h['k']
                L = ['query w %s %s %s' % (m, k, ' '.join(h['q']))]; h['_m'] = m
            if drops: drop(); L.append('clear w')
            if op in ('set', 'fill', 'query'): since.append(L[0])
            h['lines'] = L; out.append(h)
            if op in ('fill', 'query') and self.rng.random() < self.compare * (.3 if i < len(beh) - 1 else 1): comparison()
        return out
    def line(self, h): return h['lines']
    def decode(self, script, obs):
        ev = []
        for h, o in zip(script, obs):
            op = h['op']
            if op == 'start': continue
            if op == 'same':
                e = {k: v for k, v in h.items() if k != 'lines'}; r = o[-1]
                e['res'] = r[3:] if r.startswith('ok ') else r; ev.append(e); continue
            if op in ('metric', 'mset', 'own', 'init', 'ptrans', 'reset', 'set', 'copy') and o[0] != 'ok':
                break   # the request was refused: what follows is not judged
            e = {k: v for k, v in h.items() if k != 'lines' and k[0] != '_'}
            if op == 'fill':
                w = o[0].split()
                if len(w) < 12: break
                e.update(err=w[1], nb=int(w[2]), na=int(w[3]), kept=w[4] == '1', mono=w[5] == '1', over=int(w[6]), side=int(w[7]), reached=w[8] == '1', stopped=w[9] == '1' or w[10] == '1' or h['_no'], n=int(w[11]), text=o[0])
            if op == 'query':
                parts = o[0].split(' | '); hd = parts[0].split()
                if hd[0] != 'ok': break
                e['err'] = hd[1]; e['ans'] = []; e['text'] = o[0][:600]
                tm = dict(list='t', one='t', proper='tau', cartesian='c')[h['_m']]
                for x in parts[1:]:
                    w = x.split(); a = dict(date=[tm, w[0]], vals=[], stored=False, near=True); stored = {}
                    vals = {}
                    for y in w[1:]:
                        if y == 'stored': a['stored'] = True; continue
                        k, v = y.split('=')
                        if k == 'near': a['near'] = v == '1'
                        elif a['stored']: stored[k] = v
                        else: vals[k] = v
                    a['vals'] = [[k, v, stored.get(k, v)] for k, v in vals.items()]
                    e['ans'].append(a)
            ev.append(e)
        return ev
def describe(script, ev, pos):
    h = ['; '.join(x['lines']) for x in script if x['op'] != 'same']; e = {k: v for k, v in ev[pos].items() if k != 'ans'}
    return ' | '.join(h)[:1500] + ' => ' + json.dumps(e)[:900]
def explore(c, mode, kinds, walks, compare, ops=None):
    p = c.build('d_worldline')
    tiny = table(c, vecs=1, sets=[['Delta', '0.3']], offsets=['5'], queries=[])
    for kind in kinds:
        c.model_check('Worldline', cfg(6 if c.thorough else 5, ['metric', 'mset', 'own', 'init', 'ptrans', 'reset', 'set', 'copy', 'fill'], kind, 'INIT Init\nNEXT Next\nVIEW View\nINVARIANT NoStalePoint\nPROPERTIES OnlySinceCounts OthersDoNotMatter\n'), env=tiny)
    return p
def judge(c, mode, kinds, ops, compare, n=None, depth=14, parts=6):
    p = explore(c, mode, kinds, None, None)
    for kind in kinds:
        n_ = n or (6000 if c.thorough else 700)
        scripts = []
        W = WL(kind, c.rng, compare)
        for k in range(parts):   # each part draws its own questions, settings and extensions
            qs = [dict(m=c.rng.choice(MODES), q=c.rng.choice(DATES), k=c.rng.choice(COMPS)) for _ in range(8)]
            sets = c.rng.sample(SETS, 5)
            if k == parts - 1: sets = [['Adaptive', 'false'], ['Delta', '0.05'], ['MaxIter', '3000'], ['Delta', '0.3']]   # many points
            env = table(c, queries=qs, sets=sets, offsets=c.rng.sample(OFF, 4), vecs=2)
            beh = c.generate('Worldline', cfg(depth, ops, kind, 'INIT Start2\nNEXT Next\nINVARIANT EmitEnd\n'), simulate=n_ // parts, depth=depth + 2, env=env)
            pre = [dict(op='set', n='Adaptive', v='false'), dict(op='set', n='Delta', v='0.05'), dict(op='set', n='MaxIter', v='3000')] if k == parts - 1 else []
            scripts += [W.prep([dict(h, v=h['v'] + 2 * (k % 3 if k < parts - 1 else c.seed % 2)) if h['op'] == 'init' else h for h in b[:2] + pre + b[2:]]) for b in beh]
        c.conform('d_worldline', p, scripts, W.line, W.decode, 'WorldlineTrace', cfg(1, [], kind, 'INIT TInit\nNEXT TNext\n', mode, 'TRUE'), 'trajectory of a ' + kind, describe=describe, tenv=table(c))
