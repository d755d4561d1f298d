"""P09: properties read as set, nothing else changes (spec/ObjectModel.tla)."""
import objcommon
from objcommon import *
def run(c):
    objcommon.MORE_ON[0] = True
    p = c.build('d_object')
    kinds = [n for n in K if K[n]['alts']]
    neg, types = negations(c, p, kinds)
    t, f = table(c, kinds, 5 if c.thorough else 3)
    env = {'KINDS': f}
    c.model_check('ObjectModel', cfg(4, ['set', 'mut'], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT TypeOK\nPROPERTIES Independence Refused\n'), env=env)
    beh = c.generate('ObjectModel', cfg(6 if c.thorough else 4, ["set"], 1, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT EmitDone\n'), env=env, workers=4)
    R = Replayer(after=('reads',), rng=c.rng, neg=neg)
    beh.sort(key=json.dumps)
    by = {}
    for b in beh: by.setdefault((b[0]['kind'], b[0]['group']), []).append(b)
    scripts = []
    for k, bs in sorted(by.items()):       # every order of the settings of a group
        for b in c.rng.sample(bs, min(len(bs), 40)):
            scripts.append(R.expand(b))
    c.extra['kinds'] = len(kinds)
    c.conform('d_object', p, scripts, R.line, R.decode, 'ObjectTrace', TCFG, 'settings and readings', describe=describe, tenv=env, timeout=850)
