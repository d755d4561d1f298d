"""P16: pixel selections enumerate the documented sequence (spec/PixelSeq.tla, PixelSets.tla)."""
def enc(s):
    k = s['k']
    if k == 'R': return 'R %d %d %d' % (s['a'], s['b'], s['d'])
    if k in 'IA': return '%s %d %s' % (k, len(s['v']), ' '.join(map(str, s['v'])))
    if k == 'P': return 'P %d %d' % (s['x'], s['n'])
    if k in 'GB': return '%s %s %s' % (k, enc(s['i']), enc(s['j']))
    return 'E'
def line(e): return 'make ' + enc(e['s']) if e['op'] == 'make' else e['op']
def length(s):
    k = s['k']
    if k == 'R': return 0 if s['b'] < s['a'] or s['d'] == 0 else (s['b'] - s['a']) // s['d'] + 1
    if k in 'IA': return len(s['v'])
    if k == 'P': return s['n']
    if k == 'G': return length(s['i']) * length(s['j'])
    if k == 'B': return length(s['i'])
    return 0
def num(x):
    f = float(x)
    return int(f) if f == int(f) and abs(f) < 2**31 else -1
def decode(script, obs):
    ev = []
    for s, o in zip(script, obs):
        w = o.split(); e = dict(op=s['op'], err=w[0] == '1', valid=False, size=0, angle=False, x=-1, y=-1, ix=-1)
        if 's' in s: e['s'] = s['s']
        if not e['err']:
            e.update(valid=w[1] == '1', size=num(w[2]), angle=w[3] == '1')
            if e['valid']:
                e['x'] = num(w[4]); e['y'] = e['ix'] = num(w[5])
        ev.append(e)
    return ev
def run(c):
    p = c.build('d_sets', stdplug=False)
    C = 'CONSTANTS MaxV = %d\nMaxStep = %d\nMaxLen = %d\n' % ((7, 4, 3) if c.thorough else (5, 3, 2))
    cfg = C + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nVIEW View\nCONSTRAINT Walks\n'
    c.model_check('PixelSets', cfg + 'INVARIANT EnumeratesAll\n')
    sels = c.generate('PixelSets', cfg.replace('CONSTRAINT Walks\n', 'CONSTRAINT Start\n') + 'ACTION_CONSTRAINT EmitMake\n', )
    scripts = []
    inc, beg = dict(op='inc'), dict(op='begin')
    refused = 0
    for s in sels:
        n = length(s)
        sc = [dict(op='make', s=s)]
        bad = (s['k'] == 'R' and s['d'] == 0)
        if s['k'] == 'B':
            ang = lambda q: q['k'] in 'AP'
            bad = ang(s['i']) != ang(s['j']) or length(s['i']) != length(s['j'])
        if not bad:
            k = c.rng.randrange(n + 2)
            sc += [inc] * (n + 2) + [beg] + [inc] * k + [beg] + [inc] * (n + 1) + [beg]
        else: refused += 1
        scripts.append(sc)
    c.extra['refused_selections'] = refused
    c.conform('d_sets', p, scripts, line, decode, 'PixelSetsTrace', C + 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n', 'selection iteration')
