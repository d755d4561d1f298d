"""P20: uniform spectrometers (spec/Spectro.tla)."""
from spectrocommon import *
US, CS, KS = ['u1'], [], ['k1']
def run(c):
    p = c.build('d_spectro')
    S = Spec(US, CS, KS, c.rng)
    ops = ['n', 'kind', 'band', 'copy', 'make', 'badband']
    inv = 'INVARIANTS Tiling Acyclic\nPROPERTY Isolated\n'
    c.model_check('Spectro', consts(4, ['n', 'kind', 'band'], US, [], []) + 'INIT Init\nNEXT Next\nVIEW View\nCONSTRAINT Bound\n' + inv)
    beh = c.generate('Spectro', consts(4 if c.thorough else 3, ['n', 'kind', 'band'], US, [], []) + 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT EmitEnd\n', workers=4)
    n = 30000 if c.thorough else 4500
    if len(beh) > n: beh = c.rng.sample(beh, n)
    walks = c.generate('Spectro', consts(14, ops, US, CS, KS) + 'INIT Init\nNEXT Next\nCONSTRAINT Bound\nINVARIANT EmitEnd\n', simulate=3000 if c.thorough else 500, depth=16)
    scripts = [S.prep(b) for b in beh + walks]
    c.conform('d_spectro', p, scripts, S.line, S.decode, 'SpectroTrace', consts(1, [], US, CS, KS, True) + 'INIT TInit\nNEXT TNext\n', 'uniform spectrometer', describe=describe)
