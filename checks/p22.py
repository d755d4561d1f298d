"""P22: compound objects and metrics (spec/Compound.tla)."""
import json, os
RMAX, DMAX, SEGS = [12, 30, 5, 18], [3, 2, 7, 4], 6
def cfg(n, ops, which, extra, dl='FALSE'):
    return 'CONSTANTS MaxOps = %d\nOps = {%s}\nWhich = "%s"\nCHECK_DEADLOCK %s\n' % (n, ', '.join('"%s"' % o for o in ops), which, dl) + extra
def table(c, name, **kw):
    t = dict(parts=4, metrics=2, coord=['sph', 'sph', 'cart', 'sph'], rmax=RMAX, dmax=DMAX, far=100000, hits=[[], [], [], []], g=[[]] * 4, j=[[]] * 4, stop=[[]] * 4); t.update(kw)
    f = os.path.join(c.scratch, name); json.dump(t, open(f, 'w')); return {'CTAB': f}
def line(h): return h['lines']
def decode(script, obs):
    ev = []
    for h, o in zip(script, obs):
        if h['op'] == 'start': continue
        e = {k: v for k, v in h.items() if k not in ('lines', '_m')}; r = o[0].split(); e['res'] = r[0]; e['text'] = ' | '.join(o)[:700]
        if h['op'] == 'ray':
            if r[0] != 'ok' or len(r) < 9: e['res'] = 'broken'; e.update(hit0=False, quiet=False, hit=False, calls=[], whole=False, tiles=False, subs=-1, left=-9)
            else:
                n = int(r[8]); c = list(map(int, r[9:]))
                e.update(hit0=r[1] == '1', quiet=r[2] == '1', hit=r[3] == '1', left=int(r[4]), whole=r[5] == '1', tiles=r[6] == '1', subs=int(r[7]), calls=[dict(lab=c[3 * k], r=c[3 * k + 1], tr=c[3 * k + 2]) for k in range(n)])
                e['text'] = ' '.join(r[:30])
            ev.append(e); continue
        if h['op'] == 'real':
            e['res'] = 'ok' if len(r) > 1 and r[1] == 'same' else o[0]; ev.append(e); continue
        e['told'] = len(r) > 1 and r[0] == 'ok' and r[1] != '0'; e['obs'] = []
        for x in o[1:]:
            w = x.split()
            if w[0] == 'none': continue
            if w[0] not in 'cd': e['obs'].append(dict(o='?')); continue
            n = int(w[1]); b = dict(o=w[0], n=n); w = w[2:]
            b['lab'] = list(map(int, w[:n])); b['base'] = list(map(int, w[n:2 * n])); w = w[2 * n:]
            if h['_m'] == 'astrobj':
                b['distinct'] = w[0] == '1'; b['bad'] = w[1:3]; b['cm'] = dict(lab=int(w[3]), eq=True)
                b['pm'] = [dict(lab=int(w[4 + 2 * i]), eq=w[5 + 2 * i] == '1') for i in range(n)]; w = w[4 + 2 * n:]
                b['rmax'], b['dmax'] = [int(float(v)) for v in w[:2]]
            else:
                b['bad'] = w[:2]; b['coord'] = w[2]; b['inv'] = w[3] == '1'; b.update(values(w[4:]))
            e['obs'].append(b)
        ev.append(e)
    return ev
def values(w):
    i, j = w.index('J'), w.index('S')
    return dict(g=list(map(int, w[1:i])), j=list(map(int, w[i + 1:j])), stop=[x == '1' for x in w[j + 1:]])
def describe(script, ev, pos):
    e = dict(ev[pos]); e.pop('obs', None); e.pop('calls', None)
    return ' | '.join('; '.join(x['lines'][:1]) for x in script)[:900] + ' => ' + json.dumps(e)[:900]
def prep(beh, which, rng, hits):
    out = [dict(op='start', lines=['world ' + which] + (['hits ' + ' '.join('L%d %s' % (i + 1, ' '.join(map(str, s))) for i, s in enumerate(hits))] if which == 'astrobj' else []))]
    ob = ['obs c', 'obs d']
    d = False
    for h in beh:
        h = dict(h, _m=which); op = h['op']
        if op in ('clone', 'drop'): l = op
        elif op == 'append': l = 'append %s %d' % (h['o'], h['p'])
        elif op == 'remove': l = 'remove %s %d' % (h['o'], h['i'])
        elif op == 'assign': l = 'assign %s %d %d' % (h['o'], h['i'], h['p'])
        elif op == 'setmetric': l = 'setmetric %s %d' % (h['o'], h['g'])
        elif op == 'partmetric': l = 'partmetric %d %d' % (h['p'], h['g'])
        d = op == 'clone' or (d and op != 'drop')
        h['lines'] = [l] + ob; out.append(h)
        if which == 'astrobj' and rng.random() < .35:
            o, s = ('d' if d and rng.random() < .4 else 'c'), rng.randint(1, SEGS)
            out.append(dict(op='ray', o=o, seg=s, lines=['ray %s %d' % (o, s)]))
    return out
def run(c):
    p = c.build('d_compound')
    env0 = table(c, 'c0.json')
    aops = ['append', 'remove', 'assign', 'setmetric', 'partmetric', 'clone', 'drop']; mops = ['append', 'remove', 'assign', 'clone', 'drop']
    c.model_check('Compound', cfg(5 if c.thorough else 4, aops, 'astrobj', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS TypeOK Own OneCoord\nPROPERTY Unified\n'), env=env0)
    c.model_check('Compound', cfg(6 if c.thorough else 5, mops, 'metric', 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS TypeOK Own OneCoord\n'), env=env0)
    # astronomical objects
    small = table(c, 'c1.json', parts=2, metrics=1)
    beh = c.generate('Compound', cfg(4 if c.thorough else 3, aops, 'astrobj', 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), env=small, workers=4)
    if len(beh) > (30000 if c.thorough else 2500): beh = c.rng.sample(beh, 30000 if c.thorough else 2500)
    walks = c.generate('Compound', cfg(14, aops, 'astrobj', 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), simulate=3000 if c.thorough else 500, depth=16, env=env0)
    hits = [sorted(c.rng.sample(range(1, SEGS + 1), k)) for k in (3, 3, 2, 4)]
    real = []
    for _ in range(400 if c.thorough else 60):
        ks = c.rng.sample(['star1', 'star2', 'orbit', 'torus', 'thin'], c.rng.randint(2, 4)); x, y = c.rng.randint(0, 8), c.rng.randint(0, 8)
        real.append(dict(op='real', lines=['real 0 %d %d %s' % (x, y, ' '.join(ks))]))
    scripts = [prep(b, 'astrobj', c.rng, hits) for b in beh + walks]
    scripts += [[dict(op='start', lines=['world astrobj']), r] for r in real]
    c.conform('d_compound', p, scripts, line, decode, 'CompoundTrace', cfg(1, [], 'astrobj', 'INIT TInit\nNEXT TNext\n', 'TRUE'), 'compound object', describe=describe, tenv=table(c, 'c2.json', hits=hits))
    # metrics: the coefficients of the parts alone come from the code, the sums from the specification
    out = c.replay(p, 'd_compound', [['world metric', 'table']])[0][0][1].split()
    cut = [i for i, x in enumerate(out) if x == 'P'] + [len(out)]
    vals = [values(out[a + 2:b]) for a, b in zip(cut, cut[1:])]
    tab = dict(coord=[out[a + 1] for a in cut[:-1]], g=[v['g'] for v in vals], j=[v['j'] for v in vals], stop=[v['stop'] for v in vals])
    envm = table(c, 'c3.json', **tab)
    beh = c.generate('Compound', cfg(4 if c.thorough else 3, mops, 'metric', 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), env=envm, workers=4)
    if len(beh) > (8000 if c.thorough else 700): beh = c.rng.sample(beh, 8000 if c.thorough else 700)
    walks = c.generate('Compound', cfg(14, mops, 'metric', 'INIT Init\nNEXT Next\nINVARIANT EmitEnd\n'), simulate=1000 if c.thorough else 150, depth=16, env=envm)
    c.conform('d_compound', p, [prep(b, 'metric', c.rng, hits) for b in beh + walks], line, decode, 'CompoundTrace', cfg(1, [], 'metric', 'INIT TInit\nNEXT TNext\n', 'TRUE'), 'compound metric', describe=describe, tenv=envm)
