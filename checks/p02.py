"""P02: the value of a pixel is a function of the scenery and the pixel (spec/Render.tla)."""
from rendercommon import *
import scenes
def run(c):
    p = c.build('d_render')
    model(c, ('grid', 'one'))
    names = list(scenes.SCENES)
    S = Scenes(c, p, names + ['torusspec'])
    hows = ('grid', 'image', 'bucket', 'one', 'angles', 'direct')
    n = 30 if c.thorough else 4
    beh = c.generate('Render', consts(N, hows, (1, 2, 3, 4), 7) + 'INIT Init\nNEXT SNext\nINVARIANT EmitEnd\n', simulate=n * len(names), depth=8)
    scripts = []
    for k, b in enumerate(beh):
        name = names[k % len(names)]
        if S.dead(name): raise Exception('scene %s cannot be rendered: pixels %s' % (name, S.dead(name)))
        hs = [concrete(c.rng, name, h) for h in b]
        scripts.append([dict(op='load', name=name, file=S.file[name])] + hs)
    # known finding: BinSpectrum of a Torus depends on whether Spectrum is requested along with it
    scripts.append([dict(op='load', name='torusspec', file=S.file['torusspec']), dict(op='render', how='one', w=1, k=1, sh='single', px=[(2, 4)], b=None, q=['BinSpectrum'], via='one')])
    def key(script, ev, pos):
        if script[0]['name'] == 'torusspec' and ev[pos]['op'] == 'render' and ev[pos]['res'] == 'ok': return 'torus-spectrum-model'
    def decode(script, obs): return [event(S, script[0]['name'], h, o) for h, o in zip(script, obs)]
    c.conform('d_render', p, scripts, line, decode, 'RenderTrace', consts(N, hows, (1, 2, 3, 4), 1, 'TRUE') + 'INIT TInit\nNEXT TNext\n', 'renderings', describe=describe, key=key)
