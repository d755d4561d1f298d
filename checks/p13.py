"""P13: refused requests raise Gyoto::Error and change nothing (spec/ObjectModel.tla)."""
import objcommon
from objcommon import *
from bads import bads_of
def run(c):
    objcommon.MORE_ON[0] = True
    p = c.build('d_object')
    kinds = list(K)
    neg, types = negations(c, p, kinds)
    bads = {}
    for n in kinds:
        k = K[n]
        sizes = {q: len(v.split(',')) for q, v in k['base']}
        for q, vs in alts_of(k): sizes.setdefault(q, len(vs[0].split(',')))
        bads[n] = bads_of(n, k['cat'], types[n], sizes)
    def pairgroups(n, pairs):
        """requests on one property, after that property (and others) took another value"""
        tgt = {}
        for i, l in enumerate(bads[n], 1): tgt.setdefault(l.split()[2] if len(l.split()) > 2 else '', []).append(i)
        g, bg, left, nb = [], [], [], {}
        for q, ii in sorted(tgt.items()):
            mine = [x for x in pairs if x[0] == q]
            if not mine: left += ii; continue
            c.rng.shuffle(ii); m = 4 if c.thorough else 3
            for j in range(0, len(ii), m):
                other = [x for x in pairs if x[0] != q]
                for v in range(min(2, len(mine))):   # at least one of two values is not the default one
                    g.append([mine[(j // m + v) % len(mine)]] + (c.rng.sample(other, 1) if other and c.rng.random() < .3 else [])); bg.append(ii[j:j + m])
        c.rng.shuffle(left)
        for j in range(0, len(left), 4): g.append(c.rng.sample(pairs, 1) if pairs else []); bg.append(left[j:j + 4])
        return g, bg
    t, f = table(c, kinds, 1, 3, bads, filt=lambda n, p, v: (p, v) not in (('Integ31', 'true'), ('Adaptive', 'false')), pairgroups=pairgroups)
    # few orders are replayed for each group: the settings of a group serve several groups of requests
    env = {'KINDS': f}
    c.model_check('ObjectModel', cfg(3, ['set', 'bad'], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT TypeOK\nPROPERTIES Independence Refused\n'), env=env)
    beh = c.generate('ObjectModel', cfg(6, ['set', 'bad'], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT EmitDone\n'), env=env, workers=8, heap='12g')
    R = Replayer(after=('same-end', 'reads-end'), bads=bads)
    by = {}; kix = {k['name']: i for i, k in enumerate(t['kinds'])}
    for b in beh: by.setdefault((b[0]['kind'], b[0]['group']), []).append(b)
    scripts = []
    for k, bs in sorted(by.items()):
        bs.sort(key=json.dumps)
        first = [b for b in bs if len(b) > 1 and b[1]['op'] == 'set' and b[1]['p'] == t['kinds'][kix[k[0]]]['groups'][k[1] - 1][0][0]] or bs   # the property itself set first
        scripts.append(R.expand(c.rng.choice(first)))
        if c.thorough:
            for b in c.rng.sample(bs, min(len(bs), 4)): scripts.append(R.expand(b))
    # known finding: words that are not numbers inside a vector given as text
    bads['FixedStar'] = bads['FixedStar'] + ['setp %(s)s Position 1~x~2']
    kf = len(bads['FixedStar'])
    scripts.append(Replayer(after=(), bads=bads).expand([dict(op='init', kind='FixedStar', group=1), dict(op='bad', s='a', i=kf)]))
    key = lambda script, ev, pos: 'vector-text-not-number' if script[0]['_kind'] == 'FixedStar' and ev[pos].get('op') == 'bad' and ev[pos]['i'] == kf else None
    c.extra['kinds'] = len(kinds); c.extra['refused_requests'] = sum(len(x) for x in bads.values())
    def desc(script, ev, pos):
        s = describe(script, ev, pos)
        return s + (' [%s]' % bads[ev[0]['kind']][ev[pos]['i'] - 1] if ev[pos]['op'] == 'bad' else '')
    c.conform('d_object', p, scripts, R.line, R.decode, 'ObjectTrace', TCFG, 'refused requests', describe=desc, key=key, tenv=env, timeout=850)
