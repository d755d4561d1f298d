"""P04: recorded impact coordinates stand for the rays they come from (spec/Render.tla)."""
from rendercommon import *
import scenes
HOWS = ('grid', 'image', 'bucket', 'reuse')
def run(c):
    p = c.build('d_render')
    model(c, ('grid', 'reuse'))
    names = [n for n in scenes.SCENES if scenes.SCENES[n]['opaque'] and 'ImpactCoords' in scenes.SCENES[n]['quantities']]
    S = Scenes(c, p, names)
    n = 60 if c.thorough else 10
    beh = c.generate('Render', consts(N, HOWS, (1, 2, 3, 4), 8) + 'INIT Init\nNEXT RNext\nINVARIANT EmitEnd\n', simulate=n * len(names), depth=9)
    scripts = []
    for k, b in enumerate(beh):
        name = names[k % len(names)]
        if S.dead(name): raise Exception('scene %s cannot be rendered: pixels %s' % (name, S.dead(name)))
        scripts.append([dict(op='load', name=name, file=S.file[name])] + [concrete(c.rng, name, h) for h in b])
    def decode(script, obs): return [event(S, script[0]['name'], h, o, 1e-7) for h, o in zip(script, obs)]
    c.conform('d_render', p, scripts, line, decode, 'RenderTrace', consts(N, HOWS, (1, 2, 3, 4), 1, 'TRUE') + 'INIT TInit\nNEXT TNext\n', 'renderings from recorded impacts', describe=describe)
