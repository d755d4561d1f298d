"""P21: compound spectrometers (spec/Spectro.tla)."""
from spectrocommon import *
US, CS, KS = ['u1', 'u2'], ['c1', 'c2'], ['k1']
def run(c):
    p = c.build('d_spectro')
    S = Spec(US, CS, KS, c.rng)
    ops = ['n', 'kind', 'band', 'append', 'remove', 'badindex', 'copy', 'renew', 'drop']
    inv = 'INVARIANTS Tiling Concatenation Acyclic\nPROPERTY Isolated\n'
    c.model_check('Spectro', consts(5 if c.thorough else 4, ['n', 'append', 'remove', 'copy', 'renew', 'drop'], US, CS, KS) + 'INIT Init\nNEXT Next\nVIEW View\nCONSTRAINT Bound\n' + inv)
    beh = c.generate('Spectro', consts(4 if c.thorough else 3, ['n', 'append', 'remove', 'copy', 'drop'], US, CS, KS) + 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT EmitEnd\n', workers=4)
    n = 30000 if c.thorough else 4500
    if len(beh) > n: beh = c.rng.sample(beh, n)
    walks = c.generate('Spectro', consts(25, ops, US, CS, KS) + 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT EmitEnd\n', simulate=2000 if c.thorough else 400, depth=27)
    scripts = [S.prep(b) for b in beh + walks]
    c.conform('d_spectro', p, scripts, S.line, S.decode, 'SpectroTrace', consts(1, [], US, CS, KS, True) + 'INIT TInit\nNEXT TNext\n', 'compound spectrometer', describe=describe)
