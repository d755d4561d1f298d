"""P07: notification reaches exactly the current listeners (spec/Hooks.tla)."""
CONSTS = '''CONSTANTS Tellers = {1,2,3}
Listeners = {1,2,103}
MaxReg = %d
'''
def decode(script, obs):
    ev = []
    for s, o in zip(script, obs):
        op, a, b = s
        e = dict(op=op, a=a, b=b, out=[])
        for w in o.split()[1:]:
            e['out'].append([int(x) for x in w.split(',')])
        ev.append(e)
    return ev

def run(c):
    p = c.build('d_hooks', stdplug=False)
    inv = 'INVARIANTS TypeOK OncePerRegistration OnlyRegistered Acyclic\n'
    c.model_check('Hooks', CONSTS % (4 if c.thorough else 3) + 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nPROPERTY Gone\n' + inv)
    cover = c.generate('Hooks', CONSTS % (3 if c.thorough else 2) + 'INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT Emit\n')
    walks = c.generate('Hooks', CONSTS % 6 + 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Quiet\nINVARIANT EmitEnd\n',
                       simulate=1500 if c.thorough else 300, depth=41)
    # observe the full delivery relation after each covering history
    scripts = [b + [['tell', t, 0] for t in (1, 2, 3)] for b in cover] + walks
    c.conform('d_hooks', p, scripts, lambda s: '%s %d %d' % tuple(s), decode, 'HooksTrace',
              CONSTS % 1000000 + 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accepted\n', 'notification history')
