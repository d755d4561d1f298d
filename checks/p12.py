"""P12: behaviour depends on current parameters only (spec/ObjectModel.tla)."""
from objcommon import *
def run(c):
    p = c.build('d_object')
    kinds = [n for n in K if K[n]['alts']]
    t, f = table(c, kinds, 3, filt=lambda n, p, v: not (n == 'Photon' and p == 'Integ31' and v == 'true'))
    env = {'KINDS': f}
    # the model itself, on the smallest kind
    c.model_check('ObjectModel', cfg(4, ['set', 'mut'], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT TypeOK\nPROPERTIES Independence Refused\n'), env=env)
    beh = c.generate('ObjectModel', cfg(5, ['set', 'mut'], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT EmitDone\n'), env=env, workers=4)
    by = {}
    for b in beh: by.setdefault((b[0]['kind'], b[0]['group']), []).append(b)
    scripts = []
    R = Replayer(after=('same',))
    cover = {}
    def items(b):
        """what a history exercises: changes of what the object refers to, from the start or once set, before and after other changes"""
        r, ref, seen = set(), {}, []
        for h in b:
            if h['op'] == 'set':
                if h['x'] in ENV: ref[h['x']] = h['p']
                for g in seen[-1:]: r.add((b[0]['kind'], 'then', g['op'], g.get('e'), h['p']))
            elif h['op'] == 'mut':
                r.add((b[0]['kind'], 'mut', h['e'], ref.get(h['e']), len(seen) == 0))
            if h['op'] != 'init': seen.append(h)
        return {x for x in r if x[1] == 'mut' or x[2] == 'mut'}
    for k, bs in sorted(by.items()):
        bs.sort(key=json.dumps)
        full = [b for b in bs if len(b) == max(len(x) for x in bs)]
        for b in c.rng.sample(full, min(len(full), 6 if c.thorough else 1)): scripts.append(R.expand(b)); cover.update({i: 1 for i in items(b)})
    rest = [b for k, bs in sorted(by.items()) for b in bs]; c.rng.shuffle(rest)
    for b in rest:
        new = items(b) - set(cover)
        if new: scripts.append(R.expand(b)); cover.update({i: 1 for i in new})
    c.extra['changes_of_referred_objects_covered'] = len(cover)
    c.extra['kinds'] = len(kinds)
    c.conform('d_object', p, scripts, R.line, R.decode, 'ObjectTrace', TCFG, 'history of parameter changes', describe=describe, extra=None,
              tenv=env, timeout=850)
