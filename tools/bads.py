"""Requests that must be refused, per kind: driver commands with %(s)s for the object."""
# vectors with a fixed number of values
FIXED = dict(Offset=4, Position=None, InitCoord=8, Init4Coord=4, Init3Velo=3, InitVelocity=3, CutOff=2, Band=2, InitPosition=4, FourVelocity=4,
             ScreenVector1=4, ScreenVector2=4, ScreenVector3=4, AngMomRinner=2, NonThermalDeltaExpo=2, ADAFParameters=2, VeloParam=2, LampCutOffsIneV=2)
ATMOST = dict(Model_param=10, AParam=4, BParam=4, DeltasHorizon=6, DeltasAsymptotics=4)
ENUMS = dict(Integrator='no_such_integrator', AngleKind='NoSuchAngles', ObserverKind='NoSuchObserver', PerturbKind='NoSuchPerturbation', BeamingKind='NoSuchBeaming',
             BlobMotionType='NoSuchMotion', ElectronDistribution='NoSuchDistribution', Quantities='NoSuchQuantity', VelocityKind='NoSuchVelocity',
             MotionKind='NoSuchMotion', Kind='nosuchkind')
RANGES = {  # values the code documents as refused
    'Jet': [('JetOuterOpeningAngle', '1e-3'), ('JetInnerOpeningAngle', '3'), ('Alpha', '2'), ('Alpha', '-0.1')],
    'DeformedTorus': [('Beta', '2'), ('Beta', '1'), ('Metric', 'mk')],
    'OscilTorus': [('Metric', 'mk')],
    'FreeStar': [('InitVelocity', '0,0,0.5')],
    'RezzollaZhidenko': [('AParam', '0.1,-0.2'), ('BParam', '0.1,0.2,-0.3')],
    'KonoplyaRezzollaZhidenko': [('DeltasHorizon', '0,0,0,-3'), ('DeltasHorizon', '0.1,0.1'), ('DeltasHorizon', '0,0,-200'), ('DeltasHorizon', '-20'), ('DeltasHorizon', '0,0,0,0,0,50'), ('DeltasAsymptotics', '0.1,0.1')],
    'ThickDisk': [('VeloParam', '0.5,2'), ('VeloParam', '-1,0.5')],
    'Blob': [('Init4Coord', '600,9,1.2,0')],
    'Screen': [('Metric', 'NoSuch')][:0],
    'Scenery': [('Quantities', 'Intensity~NoSuch'), ('Quantities', 'Spectrum~MinDistance~Bad'), ('Quantities', 'Intensity[nosuchunit]'), ('Quantities', 'Redshift~Spectrum[kg]')],
}
WRONG = {'double': ['vdouble 1,2', 'metric m1', 'string abc'], 'bool': ['vdouble 1,2', 'metric m1', 'string abc'], 'string': ['double 1', 'metric m1'], 'filename': ['double 1', 'metric m1'],
         'size': ['vdouble 1,2', 'metric m1', 'string abc'], 'long': ['vdouble 1,2', 'metric m1', 'string abc'], 'ulong': ['vdouble 1,2', 'metric m1', 'string abc'],
         'vdouble': ['double 1', 'metric m1', 'string abc'], 'vulong': ['metric m1', 'double 1'],
         'metric': ['spectrum s1', 'double 1'], 'spectrum': ['metric m1', 'double 1'], 'spectrometer': ['metric m1', 'double 1'], 'astrobj': ['metric m1', 'double 1'], 'screen': ['metric m1', 'double 1']}
def bads_of(label, cat, types, sizes):
    """types: property -> (type, 'unit' or ''), as declared by the code; sizes: property -> number of values of its vectors"""
    r = ['set %(s)s NoSuchProperty 1', 'get %(s)s NoSuchProperty', 'set %(s)s NoSuchProperty 1 m']
    for p, (ty, u) in sorted(types.items()):
        for w in WRONG.get(ty, []): r.append('settype %%(s)s %s %s' % (p, w))
        if ty == 'double':
            r.append('set %%(s)s %s 1 nosuchunit' % p)
            r.append('set %%(s)s %s 1 candela' % p)
            r.append('get %%(s)s %s nosuchunit' % p)
            r.append('setp %%(s)s %s nonumber' % p)
        if ty == 'vdouble' and p in FIXED:
            n = FIXED[p] or sizes.get(p)
            if n:
                for m in (n - 1, n + 1, 0): r.append('settype %%(s)s %s vdouble %s' % (p, ','.join(['0.1'] * m) or '_'))
        if ty == 'vdouble' and p in ATMOST: r.append('settype %%(s)s %s vdouble %s' % (p, ','.join(['0'] * ATMOST[p] + ['0.1'])))
        if ty == 'vdouble' and u: r += ['settype %%(s)s %s vdouble 1,2 nosuchunit' % p, 'settype %%(s)s %s vdouble 1 Hz' % p, 'get %%(s)s %s nosuchunit' % p]
        if ty in ('size', 'long', 'ulong'): r.append('setp %%(s)s %s nonumber' % p)
        if ty == 'filename' and p != 'Mask':  # an unreadable mask is documented to be ignored (warning)
            r.append('set %%(s)s %s /nonexistent/nothing.fits' % p)
        if ty == 'string' and ENUMS.get(p): r.append('set %%(s)s %s %s' % (p, ENUMS[p]))
    x = ['truncated', 'empty', 'root']
    if cat not in ('scenery', 'spectrometer'): x.append('unknown')  # ignored with a warning / these documents have no elements
    if cat not in ('scenery', 'screen', 'photon'): x += ['kind', 'plugin']
    r += ['xmlbad %(s)s ' + m for m in x]
    for p, v in RANGES.get(label, []): r.append('set %%(s)s %s %s' % (p, v))
    return r
