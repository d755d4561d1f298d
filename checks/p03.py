"""P03: rendering with worker processes (spec/Mpi.tla)."""
import glob, os, re, signal
from rendercommon import *
import scenes
def mconsts(np, nw, lens, ops, dl='FALSE'): return 'CONSTANTS NP = %d\nNW = %d\nLens = {%s}\nMaxOps = %d\nCHECK_DEADLOCK %s\n' % (np, nw, ', '.join(map(str, lens)), ops, dl)
LENS = (1, 2, 5, 9)
INVS = 'INVARIANTS OnceEach InOrder NoMasked Complete NobodyForgotten\n'
SHAPES = {1: [(1, 1)], 2: [(1, 2), (2, 1)], 5: [(1, 5), (5, 1)], 9: [(3, 3)]}
def variant(x, v):
    if v == 1: return x
    return re.sub(r'(<FieldOfView unit="radian">)([0-9.]+)', lambda m: m.group(1) + repr(round(float(m.group(2)) * 1.25, 6)), x)
def fov(x): return re.search(r'<FieldOfView unit="radian">([0-9.]+)', x).group(1)
def selection(rng, n, name, recorded):
    """pixels and how to ask for them"""
    how = rng.choice(['grid', 'image', 'bucket', 'angles'] + (['reuse'] * 2 if recorded else []))
    via = rng.choice(['grid', 'image', 'bucket']) if how == 'reuse' else how
    if via in ('grid', 'image'):
        a, b = rng.choice(SHAPES[n]); d, e = (1 if a > 2 else rng.randint(1, 2)), (1 if b > 2 else rng.randint(1, 2))
        i = rng.randint(1, N - (a - 1) * d); j = rng.randint(1, N - (b - 1) * e); B = (i, i + (a - 1) * d, d, j, j + (b - 1) * e, e)
        return how, via, B, [(x, y) for y in range(j, B[4] + 1, e) for x in range(i, B[1] + 1, d)]
    px = [(x, y) for y in range(1, N + 1) for x in range(1, N + 1)]; rng.shuffle(px)
    return how, via, None, px[:n]
def reap(p, tag):
    """end the worker processes a hung run of ours left behind (only our own worker program and OpenMPI's daemon are looked at)"""
    for f in glob.glob('/proc/[0-9]*/exe'):
        try:
            exe = os.readlink(f); pid = int(f.split('/')[2])
            if (exe.startswith(p['bindir'] + '/') or os.path.basename(exe) in ('orted', 'prted')) and ('VERIF_MPI_RUN=' + tag).encode() in open('/proc/%d/environ' % pid, 'rb').read().split(b'\0'): os.kill(pid, signal.SIGKILL)
        except (OSError, ValueError): pass
def run(c):
    p = c.build('d_render', cli=True)
    c.model_check('Mpi', mconsts(3, 2, (0, 1, 2), 6) + 'INIT Init\nNEXT Next\nVIEW View\n' + INVS)
    c.model_check('Mpi', mconsts(2, 3 if c.thorough else 2, (3,), 4 if c.thorough else 3) + 'SPECIFICATION Spec\n' + INVS + 'PROPERTY Terminates\n')
    names = [n for n in scenes.SCENES]
    n = 300 if c.thorough else 60
    beh = c.generate('Mpi', mconsts(5, 4, LENS, 26) + 'INIT Init\nNEXT GNext\nINVARIANT EmitEnd\n', simulate=n, depth=400)
    c.rng.shuffle(names)
    use = names if c.thorough else names[:8] + ['polar_disk', 'fixed_bl', 'pt']
    use = sorted(set(use)); files = {}
    scenes.TORUS.update({'%s@2' % m: dict(scenes.SCENES[m], xml=variant(scenes.SCENES[m]['xml'], 2)) for m in use})
    UNITS = dict(Intensity='Intensity[erg.s-1.cm-2.sr-1.Hz-1]', Spectrum='Spectrum[mJy/sr]', BinSpectrum='BinSpectrum[erg.s-1.cm-2.sr-1]')
    for m in list(use):   # and with units
        q = [UNITS[x] for x in sc(m)['quantities'] if x in UNITS]
        if q and 'Intensity' in sc(m)['quantities'] and (c.thorough or c.rng.random() < .4):
            for v in (1, 2): scenes.TORUS['%s@u' % m + '@2' * (v - 1)] = dict(scenes.SCENES[m], xml=variant(scenes.SCENES[m]['xml'], v), unit=' '.join(q))
            use.append(m + '@u')
    S = Scenes(c, p, use + ['%s@2' % m for m in use])
    scripts = []
    for k, b in enumerate(beh):
        name = use[k % len(use)]; q = sc(name)['quantities']; out = [dict(op='load', name=name, file=S.file[name])]; ver = 1; masked = []; rec = False; team = 0
        polar = 'ParallelTransport' in sc(name)['xml']
        i = 0
        while i < len(b):
            h = dict(b[i]); i += 1
            if h['op'] == 'spawn': out.append(h)
            elif h['op'] == 'clone': out.append(h)
            elif h['op'] == 'change': ver = h['v']; rec = False; out.append(dict(h, fov=fov(sc(name if ver == 1 else name + '@2')['xml'])))
            elif h['op'] == 'mask': rec = False; masked = [x for x in range(1, N * N + 1) if h['m'] and (x % 3 == 1 if 1 in h['m'] else x % 2 == 0)]; out.append(dict(h, m=masked))
            elif h['op'] == 'start':
                order = []
                while b[i]['op'] != 'end': order.append(b[i]['w']); i += 1
                i += 1
                how, via, B, px = selection(c.rng, h['n'], name, rec)
                if polar or not sc(name)['opaque']:
                    if how == 'reuse': how = via = 'bucket'; B = None
                qs = [x for x in q if x not in ('MinDistance', 'FirstDistMin', 'NbCrossEqPlane')] if how == 'reuse' else q
                if 'ImpactCoords' in q and not polar and sc(name)['opaque'] and not rec and c.rng.random() < .5:
                    out.append(dict(op='start', how='record', via='grid', b=(1, N, 1, 1, N, 1), px=[(x, y) for y in range(1, N + 1) for x in range(1, N + 1)], q=[], ver=ver, name=name, order=order)); rec = True; continue
                qq = qs if c.rng.random() < .4 else [x for x in qs if c.rng.random() < .5] or [c.rng.choice(qs)]
                out.append(dict(op='start', how=how, via=via, b=B, px=px, q=qq, ver=ver, name=name, order=order))
            elif h['op'] in ('terminate', 'finish'): out.append(dict(op='terminate'))
        scripts.append(out)
    def line(h):
        if h['op'] == 'load': return ['load %s %d' % (h['file'], N)] + (['unit ' + sc(h['name'])['unit']] if 'unit' in sc(h['name']) else [])
        if h['op'] == 'spawn': return ['nproc %d' % h['n'], 'mpispawn %d' % h['n']]
        if h['op'] == 'clone': return ['mpiclone']
        if h['op'] == 'change': return ['fov ' + h['fov']]
        if h['op'] == 'mask': return ['mask ' + ' '.join(str(x - 1) for x in h['m'])]
        if h['op'] == 'terminate': return ['mpiend']
        sel = ' '.join(map(str, h['b'])) if h['via'] in ('grid', 'image') else ' '.join('%d %d' % x for x in h['px'])
        return ['order ' + ' '.join(map(str, h['order'])), '%s %s 2 %s %s' % (h['how'] if h['how'] in ('record', 'reuse') else 'render', h['via'], ','.join(h['q']) or 'none', sel)]
    def decode(script, obs):
        ev = []
        for h, oo in zip(script, obs):
            o = oo[-1]; w = o.split(); res = 'ok' if all(x.startswith('ok') for x in oo) else 'error'
            e = dict(op=h['op'], res=res, text=o[:300])
            if h['op'] == 'spawn': e['n'] = h['n']
            if h['op'] == 'change': e['v'] = h['v']
            if h['op'] == 'mask': e['m'] = h['m']
            if h['op'] == 'terminate': e['left'] = int(w[2]) if len(w) > 2 else -1
            if h['op'] != 'start': ev.append(e); continue
            off = 100 if h['via'] == 'angles' else 0   # directions are not masked: other names for them
            e['s'] = [(j - 1) * N + i + off for i, j in h['px']]; ev.append(e)
            if res != 'ok': continue
            head, cells = parse(o); nm = h['name'] if h['ver'] == 1 else h['name'] + '@2'
            for m in head[2:]:
                k, ww, tag, i, j = m.split(':')
                if k == 'R': ev.append(dict(op='recv', w=int(ww), tag=tag))
                else:
                    pix = 0
                    if tag == 'task' and re.match(r'^[0-9]+$', i) and h['via'] != 'angles': pix = (int(j) - 1) * N + int(i)
                    ev.append(dict(op='send', w=int(ww), tag='bye' if tag == 'done' else tag, p=pix))
            ev.append(dict(op='end', stray=head[1] != 'clean', Q=h['q'], how=h['how'], via=h['via'],
                           cells=[dict(p=pp + off, missed=S.missed(nm, pp) if h['how'] == 'reuse' else False, v=[dict(q=x, m=[y + off if y else 0 for y in S.match(nm, x, v[x], 1e-4)]) for x in v]) for pp, v in cells]))
        return ev
    def desc(script, ev, pos):
        e = ev[pos]; bad = [(x['p'], [y['q'] for y in x['v'] if x['p'] not in y['m']]) for x in e.get('cells', [])]
        return 'scene %s: %s; wrong cells %s; before: %s' % (script[0]['name'], {k: e[k] for k in e if k != 'cells'}, [x for x in bad if x[1]][:6], [x['op'] + str(x.get('n', x.get('w', ''))) for x in ev[max(0, pos - 25):pos]])
    tag = 'r%d_%d' % (os.getpid(), c.seed)
    extra = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_btl_tcp_if_include='lo', OMPI_MCA_oob_tcp_if_include='lo',
                 VERIF_MPI_RUN=tag, DRV_LIMIT='60', PATH=p['bindir'] + ':' + os.environ['PATH'])
    try:
        c.conform('d_render', p, scripts, line, decode, 'MpiTrace', mconsts(N * N, 4, LENS, 1, 'TRUE') + 'INIT TInit\nNEXT TNext\n', 'distributed renderings', describe=desc, extra=extra, par=4)
    finally:   # processes left behind by a run that hung
        reap(p, tag)
