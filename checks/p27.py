"""P27: the gyoto program (spec/Cli.tla)."""
import json, os, re, struct, subprocess, shutil, tempfile, math
from concurrent.futures import ThreadPoolExecutor
import scenes, rendercommon as R
from p03 import reap
DBLMAX = 1.7976931348623157e+308
SPECTRAL = {'Spectrum', 'SpectrumStokesQ', 'SpectrumStokesU', 'SpectrumStokesV', 'BinSpectrum'}
def fits(path):
    """image HDUs of a FITS file: list of (header dict, [nx, ny, nz], list of doubles)"""
    d = open(path, 'rb').read(); pos = 0; out = []
    while pos + 2880 <= len(d):
        h = {}; end = False
        while not end:
            blk = d[pos:pos + 2880]
            if len(blk) < 2880: raise ValueError('truncated header')
            pos += 2880
            for k in range(0, 2880, 80):
                c = blk[k:k + 80].decode('latin1')
                if c.startswith('END '): end = True; break
                m = re.match(r"^(?:HIERARCH )?([A-Za-z0-9_ -]+?) *= *('(?:[^']|'')*'|[^/]*)", c)
                if m: v = m.group(2).strip(); h[m.group(1).strip()] = v[1:-1].rstrip() if v.startswith("'") else v
        ax = [int(h['NAXIS%d' % (k + 1)]) for k in range(int(h['NAXIS']))]; n = math.prod(ax) if ax else 0
        size = n * abs(int(h['BITPIX'])) // 8
        if len(d) - pos < size: raise ValueError('truncated data')
        out.append((h, ax, list(struct.unpack('>%dd' % n, d[pos:pos + size])) if int(h['BITPIX']) == -64 else []))
        pos += (size + 2879) // 2880 * 2880
    return out
FOV = {1: 1., 2: 1.3}
INC = {1: 0., 2: 17.}
def conf(xml, res, f, i):
    x = re.sub(r'(<FieldOfView unit="radian">)([0-9.]+)', lambda m: m.group(1) + repr(fovval(xml, f)), xml)
    x = re.sub(r'(<Inclination unit="degree">)([0-9.]+)', lambda m: m.group(1) + repr(incval(xml, i)), x)
    return re.sub(r'<Resolution>5', '<Resolution>%d' % res, x)
def fovval(xml, v): return round(float(re.search(r'<FieldOfView unit="radian">([0-9.]+)', xml).group(1)) * FOV[v], 6)
def incval(xml, v): return float(re.search(r'<Inclination unit="degree">([0-9.]+)', xml).group(1)) - INC[v]
# sets of quantities asked for
QS = dict(fixed_bl=['Intensity', 'Redshift EmissionTime', 'Spectrum Intensity MinDistance', 'BinSpectrum FirstDistMin Spectrum Redshift', 'ImpactCoords Intensity'],
          disk_bl=['Intensity EmissionTime', 'NbCrossEqPlane Redshift Intensity', 'Spectrum', 'BinSpectrum Spectrum EmissionTime', 'ImpactCoords Redshift Spectrum'],
          pt=['User4', 'Redshift User4', 'Spectrum EmissionTime User4', 'EmissionTime Redshift', 'Spectrum'],
          polar_disk=['Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV', 'SpectrumStokesV SpectrumStokesU SpectrumStokesQ Spectrum Redshift', 'Spectrum SpectrumStokesU SpectrumStokesV SpectrumStokesQ', 'Redshift', 'Redshift SpectrumStokesQ SpectrumStokesU SpectrumStokesV Spectrum'],
          thin_bl=['Intensity', 'Spectrum', 'BinSpectrum Intensity', 'Spectrum BinSpectrum', 'Spectrum Intensity BinSpectrum'])
MOP = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_btl='self,vader,tcp', OMPI_MCA_btl_tcp_if_include='lo', OMPI_MCA_oob_tcp_if_include='lo')
def cfg(ress, procs, ops, dl='FALSE', nq=5): return 'CONSTANTS Ress = {%s}\nVars = {1, 2}\nNQ = %d\nProcs = {%s}\nMaxOps = %d\nCHECK_DEADLOCK %s\n' % (', '.join(map(str, ress)), nq, ', '.join(map(str, procs)), ops, dl)
def fld(v): return '' if v == 99 else str(v)
def run(c):
    p = c.build('d_render', cli=True); tag = 'r%d_%d' % (os.getpid(), c.seed)
    c.model_check('Cli', cfg((3, 5), (1, 2), 2, nq=2) + 'INIT GInit\nNEXT MNext\nVIEW View\nINVARIANTS TypeOk Inside Whole\nPROPERTY Sticky\n', defs=None)
    # every single option, every pair of selection options, and longer command lines
    one = c.generate('Cli', cfg((3, 5), (2,), 1) + 'INIT GInit\nNEXT GNext\nINVARIANT EmitEnd\n')
    long = c.generate('Cli', cfg((3, 5), (1, 2, 3), 7) + 'INIT GInit\nNEXT GNext\nINVARIANT EmitEnd\n', simulate=6000 if c.thorough else 700, depth=16)
    bad = lambda b: sum(Bad(x) for x in b)
    good = [b for b in long if not bad(b)]; c.rng.shuffle(good)
    wrong = [b for b in long if bad(b)]; c.rng.shuffle(wrong)
    nmpi = 40 if c.thorough else 8
    mpi = [b for b in good if any(x['op'] == 'procs' for x in b)][:nmpi]; good = [b for b in good if not any(x['op'] == 'procs' for x in b)]
    c.rng.shuffle(one); one = [b for b in one if b[0]['op'] != 'procs']
    cmds = (one if c.thorough else one[:90]) + good[:2500 if c.thorough else 260] + wrong[:600 if c.thorough else 50] + mpi
    names = sorted(QS); S = {}; files = {}; jobs = []
    for n in names:
        for r in (3, 5):
            for f in (1, 2):
                for i in (1, 2):
                    x = os.path.join(c.scratch, '%s_%d%d%d.xml' % (n, r, f, i)); open(x, 'w').write(conf(scenes.SCENES[n]['xml'], r, f, i)); files[n, r, f, i] = x
                    jobs += [(n, r, f, i, k) for k in range(r * r)]
    res = c.replay(p, 'd_render', [['load %s %d' % (files[n, r, f, i], r), 'render one 1 %s %d %d' % (','.join(sorted(set(scenes.SCENES[n]['quantities']) | ({'User4'} if n == 'polar_disk' else {'ImpactCoords'}))), k % r + 1, k // r + 1)] for n, r, f, i, k in jobs])
    ref = {}; dflt = {}
    R.N = 5
    for (n, r, f, i, k), (obs, st) in zip(jobs, res):
        if st != 'ok' or not obs[-1].startswith('ok '): raise Exception('reference %s: %s' % ((n, r, f, i, k), obs))
        dflt[n] = obs[0].split()[1:]; ref.setdefault((n, r), {})[10000 * r + 1000 * f + 100 * i + k + 1] = R.parse(obs[-1])[1][0][1]
    qsets = {n: [dflt[n]] + [s.split() for s in QS[n]] for n in names}
    # recorded impact coordinates, at both resolutions
    ip = {}
    for n in ('fixed_bl', 'disk_bl'):
        for r in (3, 5):
            out = os.path.join(c.scratch, 'ip_%s_%d.fits' % (n, r)); ip[n, r] = out
            rr = subprocess.run([p['gyoto'], '-s', '-T1', '--impact-coords', files[n, r, 1, 1], out], env=c.env(p), capture_output=True, text=True, timeout=120)
            if rr.returncode or not os.path.exists(out): ip[n, r] = None; c.log(n, rr.stderr[-200:])
    scripts = []
    for k, b in enumerate(cmds):
        n = names[k % len(names)] if not any(x['op'] == 'ipread' for x in b) else ('fixed_bl' if k % 2 else 'disk_bl')
        if any(x['op'] == 'ipread' for x in b) and ip[n, 5] is None: raise Exception('no impact coordinates recorded for ' + n)
        if n == 'polar_disk': b = [x for x in b if x['op'] != 'ipwrite'] or [dict(op='threads', v=2)]   # impacts cannot be recorded with polarisation
        # reading impacts: distances and crossings are not defined by them
        if any(x['op'] == 'ipread' for x in b): b = [dict(x, v=[1, 2][x['v'] % 2] if n == 'fixed_bl' else [1, 3][x['v'] % 2]) if x['op'] == 'quant' else x for x in b]
        if any(x['op'] == 'ipread' for x in b) and not any(x['op'] == 'quant' for x in b): b = [dict(op='quant', v=1)] + b
        how = c.rng.choice(['plain'] * 12 + ['overwrite', 'exists', 'noinput', 'noargs', 'baddir', 'notscenery']) if not any(x['op'] in ('procs',) for x in b) else c.rng.choice(['plain', 'plain', 'world'])
        scripts.append(dict(name=n, ops=b, how=how))
    def args(s, d):
        a = []; unit = ''; xml = scenes.SCENES[s['name']]['xml']; k = 0
        for x in s['ops']:
            o = x['op']; k += 1; sh = (len(s['ops']) + k) % 2
            if o == 'spec':
                t = fld(x['lo']) + ('' if x['hi'] == 98 else ':' + fld(x['hi']) + ('' if x['d'] == 98 else ':' + fld(x['d'])))
                a.append(('-%s%s' if sh and t else '--%sspec=%s') % (x['a'], t))
            elif o == 'bound': a.append('--%s=%d' % (x['f'], x['v']))
            elif o == 'step': a.append('--%s=%d' % (x['f'], x['v']))
            elif o == 'res': a.append(('-r%d' if sh else '--resolution=%d') % x['v'] if True else '')
            elif o == 'fov': a.append('--fov=%r' % fovval(xml, x['v']))
            elif o == 'inc': a.append('--inclination=%r' % math.radians(incval(xml, x['v'])))
            elif o == 'unit': unit = x['u']; a.append('--unit=%s' % unit if unit else '--unit')
            elif o == 'parfov':
                v = fovval(xml, x['v']); a.append('%sScreen::FieldOfView=%r' % ('-E' if sh else '--parameter=', math.degrees(v) if unit == 'degree' else v))
            elif o == 'quant': a.append('-EQuantities=' + QS[s['name']][x['v'] - 1])
            elif o == 'threads': a.append(('-T%d' if sh else '--nthreads=%d') % x['v'])
            elif o == 'procs': a.append(('-P%d' if sh else '--nprocesses=%d') % x['v'] if s['how'] != 'world' else '--nthreads=1')
            elif o == 'ipwrite': a.append('--impact-coords')
            elif o == 'ipread': a.append('--impact-coords=' + ip[s['name'], x['v']])
            elif o == 'xml': a.append('--xmlwrite=' + os.path.join(d, 'w.xml'))
            elif o == 'bad': a.append({'option': '--nosuchoption', 'parameter': '-EAstrobj::NoSuchThing=1', 'value': '-EScreen::FieldOfView=abc'}[x['k']])
        return a
    def look(path, s, e, q):
        """what the FITS file holds"""
        n = s['name']; hd = fits(path); h, ax, v = hd[0]
        e['res'] = ax[0] if len(ax) == 3 and ax[0] == ax[1] else 0
        e['planes'] = ax[2] if len(ax) == 3 else 0; r = ax[0]
        ks = sorted((int(k[6:]), x) for k, x in h.items() if k.startswith('QUANT_')); e['labels'] = [x for _, x in ks]
        nch = 3; e['need'] = sum(nch if x in SPECTRAL else 1 for x in qsets[n][q] if x != 'ImpactCoords'); pl = 0; pos = {}
        for x in e['labels']: pos[x] = pl; pl += nch if x in SPECTRAL else 1
        if pl != e['planes'] or r not in (3, 5): e['cells'] = []; return
        im = [x for x in hd[1:] if x[0].get('EXTNAME') == 'Gyoto Impact Coordinates']; e['impact'] = bool(im)
        cells = []
        for k in range(r * r):
            cell = dict(i=k % r + 1, j=k // r + 1, v=[], ip=[], missed=ref[n, r][10000 * r + 1100 + k + 1].get('ImpactCoords', [0])[0] == DBLMAX)
            for x in e['labels']:
                y = [v[(pos[x] + m) * r * r + k] for m in range(nch if x in SPECTRAL else 1)]
                cell['v'].append(dict(q=x, m=([0] if all(z == 0 for z in y) else []) + ([1] if R.nothing(x, y) else []) + [w for w in sorted(ref[n, r]) if x in ref[n, r][w] and R.close(y, ref[n, r][w][x], 1e-4)]))
            if im:
                y = im[0][2][16 * k:16 * k + 16]
                cell['ip'] = ([0] if all(z == DBLMAX for z in y) else []) + [w for w in sorted(ref[n, r]) if R.close(y, ref[n, r][w].get('ImpactCoords', []), 1e-3)]
            cells.append(cell)
        e['cells'] = cells
    def one_run(cmd, env, d):
        try: rr = subprocess.run(cmd, env=env, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors='replace', timeout=120)
        except subprocess.TimeoutExpired: return None, '', 'timeout'
        return rr.returncode, rr.stdout, rr.stderr
    def record(k):
        s = scripts[k]; d = tempfile.mkdtemp(prefix='cli', dir=c.scratch); n = s['name']
        try:
            out = os.path.join(d, 'o.fits'); inp = files[n, 5, 1, 1]; pos = [inp, out]; how = s['how']
            if how in ('overwrite', 'exists'): open(out, 'w').write('something')
            if how == 'overwrite': pos[1] = '!' + out
            if how == 'noinput': pos[0] = os.path.join(d, 'nothere.xml')
            if how == 'notscenery': open(os.path.join(d, 'm.xml'), 'w').write('<?xml version="1.0"?>\n<Metric kind="KerrBL"/>\n'); pos[0] = os.path.join(d, 'm.xml')
            if how == 'noargs': pos = []
            if how == 'baddir': pos[1] = os.path.join(d, 'no', 'o.fits')
            a = args(s, d); usempi = any(x['op'] == 'procs' for x in s['ops'])
            env = c.env(p, dict(MOP, PATH=p['bindir'] + ':' + os.environ['PATH'], VERIF_MPI_RUN=tag) if usempi else {})
            cmd = (['mpirun', '-np', '3', '--oversubscribe'] if how == 'world' else []) + [p['gyoto'], *a, *pos]
            rc, so, se = one_run(cmd, env, d)
            q = ([0] + [x['v'] for x in s['ops'] if x['op'] == 'quant'])[-1]
            e = dict(op='run', scene=n, exit=rc if rc is not None else -1, msg=bool(se.strip() or 'USAGE' in so), refuse=how in ('exists', 'noinput', 'noargs', 'baddir', 'notscenery'), res=0, planes=0, need=0, labels=[], impact=False, cells=[], cmd=' '.join(a + pos)[:400], err=se[-300:])
            if rc == 0:
                try: look(out, s, e, q)
                except (OSError, ValueError, KeyError, struct.error) as x: e['err'] = 'unreadable output: %s' % x
            ev = [dict(x) for x in s['ops']] + [e]
            w = os.path.join(d, 'w.xml')
            xs = [m for m, x in enumerate(s['ops']) if x['op'] == 'xml']
            if rc == 0 and xs and how != 'world':
                q = ([0] + [x['v'] for x in s['ops'][:xs[-1]] if x['op'] == 'quant'])[-1]; o2 = os.path.join(d, 'o2.fits')
                rc2, so, se = one_run([p['gyoto'], '-s', '-P0', w, o2], c.env(p), d)
                e2 = dict(op='again', scene=n, exit=rc2 if rc2 is not None else -1, res=0, planes=0, need=0, labels=[], impact=False, cells=[], cmd=e['cmd'], err=se[-300:])
                if rc2 == 0:
                    try: look(o2, s, e2, q)
                    except (OSError, ValueError, KeyError, struct.error) as x: e2['err'] = 'unreadable output: %s' % x
                ev.append(e2)
            return dict(id=k, ev=ev)
        finally: shutil.rmtree(d, ignore_errors=True)
    qf = os.path.join(c.scratch, 'qsets.json'); json.dump(qsets, open(qf, 'w'))
    tc = cfg((3, 5), (1, 2, 3), 1, 'TRUE') + 'INIT TInit\nNEXT TNext\n'
    def desc(script, ev, pos):
        e = ev[pos]
        return 'scene %s, "gyoto %s" (%s): %s' % (script[0]['scene'], e.get('cmd'), script[0]['how'], {k: e.get(k) for k in ('op', 'exit', 'msg', 'res', 'planes', 'need', 'labels', 'impact', 'err')})
    try:
        with ThreadPoolExecutor(8) as ex: traces = list(ex.map(record, range(len(scripts))))
        c.log('%d runs of gyoto' % len(traces))
        todo = list(traces); nv = 0
        while todo and nv < 3:
            bad_ = c.validate('CliTrace', tc, todo, tenv=dict(QSETS=qf))
            if not bad_: break
            tr, pos, txt = bad_[0]; todo = [t for t in todo if t['id'] != tr['id']]
            again = record(tr['id']); b2 = c.validate('CliTrace', tc, [again], quiet=True, tenv=dict(QSETS=qf))
            if b2: c.report('runs of the gyoto program', [dict(scene=scripts[tr['id']]['name'], how=scripts[tr['id']]['how'])], again['ev'], b2[0][1], None, desc); nv += 1
            else: c.log('unrepeatable rejection ignored', tr['id'])
    finally: reap(p, tag)
    c.traces += len(traces); c.events += sum(len(t['ev']) for t in traces); c.samples = [traces[0]['ev'][:3], traces[-1]['ev'][:3]]
def Bad(x):
    if x['op'] == 'bad': return True
    if x['op'] == 'spec': return x['lo'] == 0 or x['hi'] in (0, -1) or x['d'] == 0
    return (x['op'] == 'bound' and x['v'] == 0) or (x['op'] == 'step' and x['v'] < 0) or (x['op'] == 'unit' and x['u'] == 'nonsense' and False)
