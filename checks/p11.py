"""P11: clones (spec/ObjectModel.tla)."""
import objcommon
from objcommon import *
def run(c):
    objcommon.MORE_ON[0] = True
    p = c.build('d_object')
    kinds = list(K)
    t, f = table(c, kinds, 3, filt=lambda n, p, v: not (n == 'Photon' and p == 'Integ31' and v == 'true'))
    env = {'KINDS': f}
    c.model_check('ObjectModel', cfg(4, ['set', 'mut', 'own', 'clone', 'del'], 2, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANTS TypeOK NoSharing\nPROPERTIES Independence Refused\n'), env=env)
    beh = c.generate('ObjectModel', cfg(6 if c.thorough else 5, ['set', 'mut', 'own', 'clone', 'del'], 2, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT EmitDone\n'), env=env, workers=4, heap='12g')
    R = Replayer(after=('same-pairs', 'reads-end'))
    by = {}
    for b in beh:
        if 'clone' in [h['op'] for h in b]: by.setdefault((b[0]['kind'], b[0]['group']), []).append(b)
    scripts = []
    for k, bs in sorted(by.items()):
        bs.sort(key=json.dumps)
        c.rng.shuffle(bs)
        ops = lambda b: [h['op'] for h in b]
        def pick(cond, n):
            for b in [b for b in bs if cond(b)][:n]: scripts.append(R.expand(b))
        n = 4 if c.thorough else 1
        pick(lambda b: ops(b)[-1] == 'clone' and ops(b).count('set') >= 2, n)                 # configured, then cloned
        pick(lambda b: ops(b)[1] == 'clone' and 'set' in ops(b)[2:], n)                       # cloned, then either changed
        if k[1] > 2 and not c.thorough: continue
        pick(lambda b: 'own' in ops(b) or 'mut' in ops(b)[ops(b).index('clone'):], n)         # what they refer to changed
        pick(lambda b: 'del' in ops(b), n)                                                    # one destroyed
    c.extra['kinds'] = len(kinds)
    c.conform('d_object', p, scripts, R.line, R.decode, 'ObjectTrace', TCFG, 'cloning', describe=describe, tenv=env, timeout=850)
