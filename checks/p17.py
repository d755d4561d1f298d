"""P17: the screen mask (spec/Mask.tla)."""
import json
PATS = '{[n |-> 2, m |-> <<0, 1, 2, 0>>], [n |-> 3, m |-> <<0, 0, 1, 4, 0, 0, 2, 1, 1>>]%s}'
def consts(n, big, dl=False):
    more = ', [n |-> 2, m |-> <<0, 0, 0, 0>>], [n |-> 2, m |-> <<1, 1, 1, 0>>], [n |-> 3, m |-> <<0, 1, 0, 0, 0, 0, 0, 0, 0>>], [n |-> 3, m |-> <<1, 1, 1, 1, 1, 1, 1, 0, 1>>]' if big else ''
    return 'CONSTANTS MaxOps = %d\nPats <- ThePats\nCHECK_DEADLOCK %s\n' % (n, 'TRUE' if dl else 'FALSE'), PATS % more
def run(c):
    p = c.build('d_mask')
    def mod(base, big):
        return {'M': '---- MODULE M ----\nEXTENDS %s\nThePats == %s\n====\n' % (base, consts(1, big)[1])}
    inv = 'INIT Init\nNEXT Next\nCONSTRAINT Bound\n'
    c.model_check('M', consts(5 if c.thorough else 4, False)[0] + inv + 'VIEW View\nINVARIANTS SizeOk NoMaskKeepsAll FileOnlyWithMask\nPROPERTIES Isolated RoundTrip\n', defs=mod('Mask', False))
    beh = c.generate('M', consts(3, False)[0] + inv + 'INVARIANT EmitEnd\n', defs=mod('Mask', False), workers=4)
    n = 20000 if c.thorough else 1800
    if len(beh) > n: beh = c.rng.sample(beh, n)
    walks = c.generate('M', consts(16, True)[0] + inv + 'INVARIANT EmitEnd\n', defs=mod('Mask', True), simulate=4000 if c.thorough else 500, depth=18)
    scripts = [[dict(h=h, how=c.rng.choice('pid'), th=c.rng.choice('112')) for h in b] for b in beh + walks]
    def line(s):
        h = s['h']; op = h['op']; x = h['x']
        if op == 'set': l = 'set %s %d %s' % (x, h['p']['n'], ' '.join(map(str, h['p']['m'])))
        elif op == 'res': l = 'res %s %d %s' % (x, h['n'], s['how'])
        elif op == 'save': l = 'save %s %s%s' % (x, '!' if h['over'] else '', h['f'])
        elif op == 'load': l = 'load %s %s %s' % (x, h['f'], s['how'])
        elif op in ('clone', 'xml'): l = '%s %s %s' % (op, x, h['y'])
        else: l = '%s %s' % (op, x)
        return [l, 'obs a ' + s['th'], 'obs b ' + s['th']]
    def see(o):
        n, m, f, k, d, bad = o.split(';')
        def num(v): return int(v) if v.lstrip('-').isdigit() else 999
        return dict(n=int(n), m=[num(v) for v in m.split()], f=f, kept=[v == '1' for v in k.split()], drawn=[v == '1' for v in d.split()] if '-1' not in d.split() else [], outside=bad == '0')
    def decode(script, obs):
        return [dict(h=s['h'], res=o[0].split()[0], text=o[0], a=see(o[1]), b=see(o[2])) for s, o in zip(script, obs)]
    def describe(script, ev, pos):
        return 'after %s: %s, screens %s %s' % (json.dumps([e.get('h', e) for e in ev[:pos + 1]]), ev[pos].get('text'), json.dumps(ev[pos].get('a')), json.dumps(ev[pos].get('b')))

    c.conform('d_mask', p, scripts, line, decode, 'MaskTrace', 'CONSTANTS MaxOps = 1\nPats = {}\nCHECK_DEADLOCK TRUE\nINIT TInit\nNEXT TNext\n', 'screen mask', describe=describe)
