"""P26: radiative transfer along a ray (spec/Transfer.tla)."""
import json
QU = ['Intensity', 'Spectrum', 'BinSpectrum', 'Redshift', 'Time']; ST = ['Q', 'U', 'V']
NE = 4; SCALE = NE + 4
def consts(enc, chan, em, sh, planes, dl='FALSE'):
    q = lambda s: '{' + ', '.join(s) + '}'
    return 'CONSTANTS MaxEnc = %d\nChan = %d\nEmissions = %s\nShifts <- TheShifts\nPlanes = %s\nCHECK_DEADLOCK %s\n' % (enc, chan, q(map(str, em)), q('"%s"' % x for x in planes), dl), \
        q(('0 - 1' if x < 0 else str(x)) for x in sh)
def mod(base, shifts): return {'M': '---- MODULE M ----\nEXTENDS %s\nTheShifts == %s\n====\n' % (base, shifts)}
ALL = ['one', 'half', 'zero', 'rot', 'polp', 'polm']
def run(c):
    p = c.build('d_transfer')
    k, s = consts(3 if c.thorough else 2, 1, [1], [-1, 0, 1] if not c.thorough else [0, 1], ALL if not c.thorough else ['half', 'zero', 'rot', 'polp'])
    c.model_check('M', k + 'INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Nonneg ClosedForm Physical\nPROPERTIES BehindOpaque OpaqueStokes\n', defs=mod('Transfer', s))
    # every pair of encounters (both channels alike) and random rays of four
    k, s = consts(2, 1, [1], [-1, 1], ALL)
    pairs = c.generate('M', k + 'INIT Init\nNEXT Next\nVIEW EncView\nINVARIANT EmitEnd\n', defs=mod('Transfer', s), workers=4)
    n = 12000 if c.thorough else 1500
    if len(pairs) > n: pairs = c.rng.sample(pairs, n)
    def tr(e, kk): return e['tr'].get(str(kk), e['tr'].get(kk)) if isinstance(e['tr'], dict) else e['tr'][kk]
    # spread the two-channel rays: the second channel is that of another ray
    def widen(a, b): return [dict(em=x['em'], s=x['s'], tr=[tr(x, 0), tr(x, 1), tr(y, 1)], m=[x['m'][0], y['m'][0]]) for x, y in zip(a, b)]
    rays = [widen(a, b) for a, b in zip(pairs, c.rng.sample(pairs, len(pairs)))]
    # rays of four: two pairs one behind the other, with other emissions
    nw = 4000 if c.thorough else 300
    walks = [[dict(e, em=c.rng.choice([0, 1, 2, 3])) for e in c.rng.choice(pairs) + c.rng.choice(pairs)] for _ in range(nw)]
    for a, b in zip(walks, c.rng.sample(walks, len(walks))):
        w = widen(a, b); rays += [w, [dict(e, tr=[max(1, x) for x in e['tr']], m=[x if x in ('one', 'half', 'rot') else 'half' for x in e['m']]) for e in w]]
    rays += [[]] * 20
    def ray(r):
        polar = c.rng.random() < .5; spec = polar or c.rng.random() < .75
        pool = [q for q in QU + (ST if polar else []) if spec or q not in ('Spectrum', 'BinSpectrum')]
        want = [q for q in pool if c.rng.random() < c.rng.choice([.3, .6, 1.])] or [c.rng.choice(pool)]
        if c.rng.random() < .03: want = ['none']
        same = [k > 0 and c.rng.random() < .1 for k in range(len(r))]
        return dict(how=c.rng.choice(['scenery', 'photon']), polar=polar, spec=spec, noshift=c.rng.random() < .2, off=c.rng.choice([1, 1, 3]), want=want, enc=r, same=same)
    rays = [ray(r) for r in rays]; c.rng.shuffle(rays)
    scripts = [rays[i:i + 3] for i in range(0, len(rays), 3)]
    b = lambda x: '1' if x else '0'
    def line(r):
        return 'ray %s %s %s %s %d %s' % (r['how'], b(r['polar']), b(r['spec']), b(r['noshift']), r['off'], ','.join(r['want'])) + \
            ''.join(' | %d %d %d %d %d %s %s %s' % (e['em'], e['s'], *e['tr'], *e['m'], b(sm)) for e, sm in zip(r['enc'], r['same']))
    def toint(x):
        v = float(x) * 2 ** SCALE
        return int(round(v)) if abs(v) < 2**30 and abs(v - round(v)) < 1e-6 else -999999
    def red(x):
        import math
        v = float(x)
        if v == 0: return 0
        k = round(math.log2(v)) if v > 0 else -99
        return k if abs(v - 2.0 ** k) < 1e-9 * v else -99
    def decode(script, obs):
        ev = []
        for r, o in zip(script, obs):
            w = o.split()
            ev.append(dict(op='start', want=[x for x in r['want'] if x != 'none'], polar=r['polar'], noshift=r['noshift']))
            # with no data requested the ray stops at its first encounter
            ev += [dict(op='meet', e=e) for e in r['enc']]
            d = dict(op='see', text=o, finite=w[0] == 'ok', consistent=False, hit=False, grouped=any(r['same']), Redshift=-99, Time=-1, Intensity=-1)
            for q in ('Spectrum', 'BinSpectrum', 'Q', 'U', 'V'): d[q] = [-1, -1]
            if w[0] == 'ok':
                d['hit'] = w[2] == '1'; d['consistent'] = w[1] == '1' and w[-1] == 'own'
                k = 4
                while k < len(w) - 1:
                    q = w[k]
                    if q == 'Redshift': d[q] = red(w[k + 1]); k += 2
                    elif q == 'Time': d[q] = int(w[k + 1]); k += 2
                    elif q == 'Intensity': d[q] = toint(w[k + 1]); k += 2
                    else: d[q] = [toint(w[k + 1]), toint(w[k + 2])]; k += 3
            ev.append(d)
        return ev
    def describe(script, ev, pos):
        n = sum(1 for e in ev[:pos + 1] if e.get('op') == 'start')
        return 'ray %s gave %s' % (json.dumps(script[n - 1]) if 0 < n <= len(script) else '', ev[pos].get('text', ev[pos]))
    k, s = consts(NE, 2, [1], [0], ['one'], 'TRUE')
    c.conform('d_transfer', p, scripts, line, decode, 'M', k + 'INIT TInit\nNEXT TNext\n', 'radiative transfer', describe=describe, tdefs=mod('TransferTrace', s))
