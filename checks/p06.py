"""P06: an object lives exactly as long as something refers to it (spec/SmartPtr.tla, SmartPtrMT.tla)."""
import itertools
def consts(n): return 'CONSTANTS Roots = {1,2,3}\nDerived = {3}\nObjs = {%s}\n' % ','.join(str(i) for i in range(1, n + 1))
def decode(script, obs):
    ev = []
    for s, o in zip(script, obs):
        a, b, cc, d = [x.split() for x in o.split(';')]
        ev.append(dict(op=s[0], r=s[1], q=s[2], f=s[3], err=a[0] == '1', died=[int(x) for x in b], at=[int(x) for x in cc], cnt=[int(x) for x in d]))
    return ev
def decode_mt(script, obs):
    ev = [dict(op='start', n=len(script[0].split()) - 1)]
    for e in (obs[0] if obs else '').split(';'):
        w = e.split()
        if w: ev.append(dict(op=w[0], th=int(w[1])))
    return ev + [dict(op='end')]

def run(c):
    p = c.build('d_smartptr', stdplug=False)
    mc = 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
    c.model_check('SmartPtr', consts(4 if c.thorough else 3) + mc + 'INVARIANTS RefsAlive NoOrphan Typed\n')
    cover = c.generate("SmartPtr", consts(3 if c.thorough else 2) + mc + 'ACTION_CONSTRAINT Emit\n')
    if len(cover) > 60000: cover = c.rng.sample(cover, 60000)
    if not c.thorough and len(cover) > 8000: cover = c.rng.sample(cover, 8000)
    walks = c.generate('SmartPtr', consts(6) + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Quiet\nINVARIANT EmitEnd\n',
                       simulate=2000 if c.thorough else 200, depth=61)
    walks = [w + [['null', r, 0, 'null'] for r in (1, 2, 3)] for w in walks]
    c.conform('d_smartptr', p, cover + walks, lambda s: '%s %d %d %s' % tuple(s), decode, 'SmartPtrTrace',
              consts(6) + 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n', 'ownership history')
    # threads: all interleavings of the specification, as schedules for the real code
    mt = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS AtMostOnce NotBefore NeverUsedDead DestroyedAtEnd\n'
    c.model_check('SmartPtrMT', 'CONSTANTS Threads = {1,2,3}\nMaxCopy = 3\nMaxOps = 2\n' + mt + 'VIEW view\n')
    scheds = c.generate('SmartPtrMT', 'CONSTANTS Threads = {1,2}\nMaxCopy = 2\nMaxOps = 1\n' + mt.replace('DestroyedAtEnd', 'DestroyedAtEnd EmitDone'))
    sim = c.generate('SmartPtrMT', 'CONSTANTS Threads = {1,2,3}\nMaxCopy = 3\nMaxOps = 2\n' + mt.replace('DestroyedAtEnd', 'DestroyedAtEnd EmitDone'),
                     simulate=3000 if c.thorough else 400, depth=80)
    scripts = []
    two = ['d', 'cdd', 'ccddd', 'cdcdd']
    for s in (scheds if c.thorough else c.rng.sample(scheds, min(len(scheds), 600))):
        # a gate of the real code is at most one of begin, lock, unlock, end: stretch the schedule
        o = c.rng.choice(two), c.rng.choice(two)
        scripts.append(['MT %s %s' % o, 'S ' + ' '.join('%d %d' % (x, x) if c.rng.random() < .5 else str(x) for x in s)])
    for s in sim:
        o = [c.rng.choice(two) for _ in range(3)]
        scripts.append(['MT ' + ' '.join(o), 'S ' + ' '.join('%d %d' % (x, x) if c.rng.random() < .5 else str(x) for x in s)])
    # small programs, all schedules over the gates of the real code
    for o in (('d', 'd'), ('d', 'cdd')):
        for s in itertools.product((0, 1, 2), repeat=9 if c.thorough else 7):
            scripts.append(['MT ' + ' '.join(o), 'S 0 0 ' + ' '.join(map(str, s))])
    c.conform('d_smartptr', p, scripts, lambda s: s, decode_mt, 'SmartPtrMTTrace',
              'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n', 'thread schedule')
    # free-running threads: the events are recorded as they come
    free = [['MT ' + ' '.join(['cd' * 2000 + 'd'] * 8), 'R'] for _ in range(20 if c.thorough else 6)]
    c.conform('d_smartptr', p, free, lambda s: s, lambda s, o: [e for e in decode_mt(s, o) if e['op'] not in ('copied', 'drop')] if False else squash(decode_mt(s, o)),
              'SmartPtrMTTrace', 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n', 'free-running threads', par=2)

def squash(ev):
    """drop matching copied/drop pairs of the same thread that are not followed by a destruction in between"""
    out, first = [], True
    held = {}
    for e in ev:
        if e['op'] == 'copied':
            held[e['th']] = held.get(e['th'], 0) + 1; continue
        if e['op'] == 'drop' and held.get(e['th'], 0) > 0:
            held[e['th']] -= 1; continue
        if e['op'] == 'destroyed':
            for th, n in held.items():
                out += [dict(op='copied', th=th)] * n
            held = {}
        out.append(e)
    return out
