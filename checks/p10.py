"""P10: XML written and read back (spec/ObjectModel.tla)."""
import objcommon
from objcommon import *
def run(c):
    objcommon.MORE_ON[0] = True
    p = c.build('d_object')
    kinds = list(K)
    t, f = table(c, kinds, 4 if c.thorough else 3, filt=lambda n, p, v: not (n == 'Photon' and p == 'Integ31' and v == 'true'))
    env = {'KINDS': f}
    c.model_check('ObjectModel', cfg(4, ['set', 'xml'], 2, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANTS TypeOK NoSharing\nPROPERTIES Independence Refused\n'), env=env)
    beh = c.generate('ObjectModel', cfg(6 if c.thorough else 5, ['set', 'xml'], 2, 'INIT Init\nNEXT Next\nCONSTRAINT Walk\nINVARIANT EmitDone\n'), env=env, workers=4, heap='12g')
    R = Replayer(tol=1e-4, after=('same-copy', 'xmlfix', 'reads-end'))
    by = {}
    for b in beh:
        ops = [h['op'] for h in b]
        if 'xml' in ops: by.setdefault((b[0]['kind'], b[0]['group']), []).append(b)
    scripts = []
    for k, bs in sorted(by.items()):
        bs.sort(key=json.dumps)
        late = [b for b in bs if b[-1]['op'] == 'xml'] or bs          # everything set, then copied
        early = [b for b in bs if b[-1]['op'] != 'xml'] or bs         # copied, then either changed
        n = 4 if c.thorough else 1
        for src in (late, early):
            for b in c.rng.sample(src, min(n, len(src))): scripts.append(R.expand(b))
    # known finding: the units of the quantities of a Scenery are not written
    beh = [dict(op='init', kind='Scenery', group=1), dict(op='set', s='a', p='Quantities', x='Intensity[mJy/sr]'), dict(op='xml', s='a', t='b')]
    scripts.append(Replayer(tol=1e-4, after=('same-copy',)).expand(beh))
    def key(script, ev, pos):
        if script[0]['_kind'] == 'Scenery' and ev[pos]['op'] == 'same' and any('[' in h.get('x', '') for h in script if h.get('p') == 'Quantities'): return 'scenery-quantities-units-xml'
    c.extra['kinds'] = len(kinds)
    c.conform('d_object', p, scripts, R.line, R.decode, 'ObjectTrace', TCFG, 'XML round trip', describe=describe, key=key, tenv=env, timeout=850)
