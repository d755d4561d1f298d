"""P05: requested quantities (spec/Quantities.tla)."""
import json
U = {'': '', 'cgs': '[erg.cm-2.s-1.sr-1.Hz-1]', 'jy': '[Jy/sr]', 'pix': '[Jy/pix2]', 'wrong': '[m]', 'open': '[Jy/sr'}
def run(c):
    p = c.build('d_quant')
    K = 'CONSTANTS MaxOps = %d\nMaxLen = %d\nCHECK_DEADLOCK %s\nINIT %s\nNEXT %s\n'
    inv = 'INVARIANTS TypeOk Counts Polarised\nPROPERTY RefusedChangesNothing\n'
    c.model_check('Quantities', K % (2, 2 if c.thorough else 1, 'FALSE', 'Init', 'Next') + 'CONSTRAINT Bound\nVIEW View\n' + inv)
    beh = c.generate('Quantities', K % (1, 2, 'FALSE', 'Init', 'Next') + 'CONSTRAINT Bound\nINVARIANT EmitEnd\n', workers=4)
    n = 6000 if c.thorough else 1200
    if len(beh) > n: beh = c.rng.sample(beh, n)
    walks = c.generate('Quantities', K % (10, 2, 'FALSE', 'Init', 'RNext') + 'CONSTRAINT Bound\nINVARIANT EmitEnd\n', simulate=6000 if c.thorough else 700, depth=90)
    # short lists in sequence: pairs of the exhaustive ones
    pairs = [a + b for a, b in zip(c.rng.sample(beh, len(beh) // 2), c.rng.sample(beh, len(beh) // 2))]
    scripts = [[dict(h=h, prop=c.rng.random() < .5, sep=c.rng.choice([' ', '  ', '\t', ' '])) for h in b] for b in beh + pairs + walks]
    def item(i):
        un = U[i['u']]
        if i['n'] == 'BinSpectrum' and i['u'] == 'cgs': un = '[erg.cm-2.s-1.sr-1]'
        return i['n'] + un
    def line(s):
        h = s['h']; op = h['op']
        if op in ('list', 'empty'):
            return 'list ' + s['sep'].join(item(i) for i in h.get('L', [])) + (' @p' if s['prop'] else '')
        if op == 'flags': return 'flags ' + ' '.join(h['S'])
        return op
    def decode(script, obs):
        ev = []
        for s, o in zip(script, obs):
            if o.count(';') < 7: break
            f = o.split(';')
            w = f[7].split() if f[6] == '1' else []
            ev.append(dict(h=s['h'], res=f[0], flags=f[1].split(), names=f[2].split(), nscalar=int(f[3]), nspectral=int(f[4]), polar=f[5] == '1', rendered=f[6] == '1',
                           planes=[dict(n=w[k], u={'SI': ''}.get(w[k + 1], w[k + 1])) for k in range(0, len(w), 2)], text=o))
        return ev
    def describe(script, ev, pos):
        return 'after %s: %s' % (json.dumps([e.get('h', e) for e in ev[:pos + 1]]), ev[pos].get('text'))
    c.conform('d_quant', p, scripts, line, decode, 'QuantitiesTrace', K % (1, 1, 'TRUE', 'TInit', 'TNext'), 'requested quantities', describe=describe)
