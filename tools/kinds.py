"""Table of the kinds of objects, their properties and pools of valid values.  Read by the specification
(as JSON) and by the scripts made from its behaviours.  A value is a token understood by harness/heap.h;
'm1', 'm2' are metrics, 's1', 's2', 's3' spectra, made by PRELUDE."""
PRELUDE = ['new m1 metric KerrBL', 'set m1 Spin 0.5', 'set m1 Mass 4.1e36',
           'new m2 metric KerrBL', 'set m2 Spin 0.9', 'set m2 Mass 6e36',
           'new m3 metric KerrBL', 'set m3 Spin 0.8', 'set m3 Mass 4.1e36',
           'new m4 metric KerrBL', 'set m4 Spin 0.92', 'set m4 Mass 5e36',
           'new mk metric KerrKS', 'set mk Spin 0.3', 'set mk Mass 4.1e36',
           'new s1 spectrum PowerLaw', 'set s1 Exponent 0.5', 'set s1 Constant 1e-3',
           'new s2 spectrum BlackBody', 'set s2 Temperature 6000',
           'new s3 spectrum PowerLaw', 'set s3 Constant 0.05',
           'new r1 spectrometer freqlog', 'set r1 NSamples 3', 'set r1 Band 11.,14.',
           'new r2 spectrometer wave', 'set r2 NSamples 2', 'set r2 Band 1e-6,3e-6',
           'new t1 astrobj Torus', 'set t1 Metric m1', 'set t1 LargeRadius 7', 'set t1 SmallRadius 2', 'set t1 RMax 30',
           'new t2 astrobj FixedStar', 'set t2 Metric m1', 'set t2 Position 8.,1.2,0.7', 'set t2 Radius 3', 'set t2 RMax 30']
K = {}
def kind(cat, name, base='', alts='', **kw):
    def parse(s):
        r = []
        for w in s.split():
            k, v = w.split('=', 1)
            r.append((k, v))
        return r
    K[kw.pop('label', name)] = dict(
        cat=cat, kind=name, base=parse(base), alts=[(k, v.split('|')) for k, v in parse(alts)], **kw)

# ---- metrics -----------------------------------------------------------------
GEN = ' Mass=4.1e36|2e30 DeltaMax=50|2 DeltaMin=1e-5|1e-3 DeltaMaxOverR=0.5|0.1'
KEP = ' Keplerian=true|false'
kind('metric', 'KerrBL', 'Spin=0.5', 'Spin=0|0.9|-0.4 HorizonSecurity=0.05|0.2 GenericIntegrator=true|false DiffTol=0.03|0.001' + KEP + GEN)
kind('metric', 'KerrKS', 'Spin=0.5', 'Spin=0|0.9|-0.4 HorizonSecurity=0.05|0.2' + KEP + GEN)
kind('metric', 'Minkowski', '', 'Spherical=true|false' + KEP + GEN)
kind('metric', 'ReissnerNordstrom', 'Charge=0.3', 'Charge=0|0.7' + KEP + GEN)
kind('metric', 'BalasinGrumiller', '', 'V0=0.01|0.002 R=60|90 r0=2|3' + GEN)
kind('metric', 'SchwarzschildHarmonic', '', KEP + GEN)
kind('metric', 'Hayward', 'Spin=0.5 Charge=0.2', 'Spin=0.1|0.9 Charge=0.1|0.5' + KEP + GEN)
kind('metric', 'KonoplyaRezzollaZhidenko', 'Spin=0.2', 'Spin=0.4|0.01 Rms=5.5|7 DeltasHorizon=0.1,0,0,0,0,0|0,0,0,0.1,0,0 DeltasAsymptotics=0,0.02,0,0|0,0,0.1,0' + KEP + GEN)
kind('metric', 'RezzollaZhidenko', 'Rms=6 Rmb=4', 'Epsilon=0.1|0.2 Rms=5.5|7 Rmb=3.5|4.5 AParam=0.1,0.02,0,0|0,0.1,0.03,0 BParam=0.1,0.02,0,0|0.02,0.03,0.1,0' + KEP + GEN)
kind('metric', 'ChernSimons', 'Spin=0.1', 'DzetaCS=0.1|0.3 Spin=0.2|0.05 HorizonSecurity=0.05|0.2 GenericIntegrator=true|false DiffTol=0.03|0.001' + KEP + GEN)
kind('metric', 'Shift', 'SubMetric=mk', 'Offset=0,1,2,3|0,-2,0.5,1' + KEP + ' DeltaMax=50|2 DeltaMin=1e-5|1e-3 DeltaMaxOverR=0.5|0.1')
# ---- spectra -----------------------------------------------------------------
kind('spectrum', 'PowerLaw', '', 'Exponent=0.5|-1 Constant=2|0.1 CutOff=1e10,1e15|0,3e14')
kind('spectrum', 'BlackBody', '', 'Temperature=6000|2e7 Scaling=1|2.5 ColorCorrection=1.5|2')
for s in 'KappaDistributionSynchrotron PowerLawSynchrotron ThermalSynchrotron ThermalBremsstrahlung'.split(): kind('spectrum', s)
# ---- spectrometers -----------------------------------------------------------
kind('spectrometer', 'freq', 'NSamples=4 Band=1e11,5e11', 'NSamples=1|7 Band=1e12,2e12|1e9,1e15')
kind('spectrometer', 'freqlog', 'NSamples=4 Band=11,14', 'NSamples=1|7 Band=12,13|9,15')
kind('spectrometer', 'wave', 'NSamples=4 Band=1e-6,2e-6', 'NSamples=1|7 Band=1e-5,2e-5|1e-9,1e-3')
kind('spectrometer', 'wavelog', 'NSamples=4 Band=-6,-5', 'NSamples=1|7 Band=-5,-4|-9,-3')
# ---- screen, photon ------------------------------------------------------------
kind('screen', 'Screen', 'Metric=m1 Distance=1e12 Time=1e4 Resolution=6 Inclination=1.2',
     'Metric=m2|mk Time=2e4|0 FieldOfView=0.1|0.5 AzimuthalFieldOfView=1|3 PALN=3|0.2 Inclination=0.4|2 Argument=1|-1.5 Dangle1=0.01|0.02 Dangle2=0.02|-0.01 Resolution=4|9 '
     'Distance=2e12|5e13 DMax=1e6|1e5 FreqObs=1e14|2e17 AngleKind=SphericalAngles|Rectilinear|EquatorialAngles ObserverKind=ZAMO|ObserverAtInfinity|KeplerianObserver Spectrometer=r1|r2|NULL')
WL = (' Integ31=true|false HighOrderImages=false|true ParallelTransport=true|false CheckBasis=false|true MaxCrossEqplane=3|1e30 RelTol=1e-5|1e-8 AbsTol=1e-5|1e-8 NormTol=0.01|1e-4'
      ' DeltaMaxOverR=0.5|0.2 DeltaMax=5|1 DeltaMin=1e-6|1e-4 Integrator=runge_kutta_cash_karp54|runge_kutta_dopri5|Legacy MaxIter=5000|300 Adaptive=false|true Delta=0.5|0.1')
kind('photon', 'Photon', 'Metric=m1 InitCoord=0,20,1.3,0.4,0.9350830581272708,-0.8,0.01,0.01', 'InitCoord=5,15,1.1,0.1,0.97841658776592,-0.8,0.01,0.02|0,30,1.5,0,0.9720337457987946,-0.7,0,0.02 MinimumTime=-1e4|-3 Astrobj=t1|t2|NULL' + WL, mut=False)
# ---- astronomical objects --------------------------------------------------------
AO = ' RMax=25|40 DeltaMaxInsideRMax=0.5|2 Redshift=false|true ShowShadow=true|false OpticallyThin=true|false MagneticConfiguration=Toroidal|Vertical'
STD = ' SafetyValue=0.4|2 DeltaInObj=0.2|0.1'
TD = ' InnerRadius=7|4 OuterRadius=15|12 Thickness=0.01|0.002 CoRotating=false|true VelocityKind=ZAMO|Keplerian'
US = ' Spectrum=s2|s1 Opacity=s3|s1 IsotropicEmittedIntensity=true|false DeltaMaxOverDistance=0.2|0.05 DeltaMaxOverRadius=0.2|0.05 Radius=5|3'
kind('astrobj', 'Torus', 'Metric=m1 LargeRadius=7 SmallRadius=2 RMax=30', 'Metric=m2 LargeRadius=8|6 SmallRadius=3|1.5 Spectrum=s1|s2 Opacity=s3|s1' + STD + AO)
kind('astrobj', 'FixedStar', 'Metric=m1 Position=8,1.2,0.7 Radius=3 RMax=30', 'Metric=m2 Position=7,1.5,-1|9,1,2 Rotating=true|false' + US + STD + AO)
# the same with the default RMax, which follows the radii
kind('astrobj', 'Torus', 'Metric=m1 LargeRadius=7 SmallRadius=2', 'LargeRadius=8|6 SmallRadius=3|1.5 RMax=25|40', label='TorusAutoRMax')
kind('astrobj', 'FixedStar', 'Metric=m1 Position=8,1.2,0.7 Radius=3', 'Position=7,1.5,-1|9,1,2 Radius=5|2 RMax=25|40', label='FixedStarAutoRMax')
kind('astrobj', 'ThinDisk', 'Metric=m1 InnerRadius=6 OuterRadius=18', 'Metric=m2|mk' + TD + AO)
kind('astrobj', 'ThinDiskPL', 'Metric=m1 InnerRadius=6 OuterRadius=18 Slope=-1 Tinner=1e5', 'Metric=m2|mk Slope=-2|-0.5 Tinner=1e6|1e4' + TD + AO)
kind('astrobj', 'ThinDiskIronLine', 'Metric=m1 InnerRadius=6 OuterRadius=18 PowerLawIndex=-2 LineFreq=0.001 CutRadius=5', 'Metric=m2|mk PowerLawIndex=-1|-3 LineFreq=0.0005|0.01 CutRadius=4|3' + TD + AO)
kind('astrobj', 'ThinDiskProfile', 'Metric=m1 InnerRadius=6 OuterRadius=18 Model_param=1,2,3,4', 'Metric=m2|mk Model_param=2,1,0.5,1,1,0,0,0,0,0|1,1,2,2,0,0,0,0,0,1 MotionKind=Radial|Mixed|Circular' + TD + AO)
kind('astrobj', 'PageThorneDisk', 'Metric=m1 OuterRadius=18', 'Metric=m2|mk Mdot=2|0.5 UniFlux=true|false' + ' OuterRadius=15|12 Thickness=0.01|0.002 CoRotating=false|true VelocityKind=ZAMO|Keplerian' + AO)
kind('astrobj', 'StochasticThinDisk', 'Metric=m1 InnerRadius=6 OuterRadius=18', 'Metric=m2|mk Model_param=2,1,0.5,1,1,0,0,0,0,0|1,1,2,2,0,0,0,0,0,1 EquationKind=AdvectionDiffusion|Wave MotionKind=Circular|Radial|Static' + TD + AO)
kind('astrobj', 'SphericalAccretion', 'Metric=m1 NumberDensityAtInnerRadius=1e12 RMax=6 DeltaMaxInsideRMax=2 DeltaInObj=1 SafetyValue=100', 'Metric=m2 SphericalAccretionInnerRadius=3|4 NumberDensityAtInnerRadius=1e13|1e11 DensitySlope=1.5|1 TemperatureAtInnerRadius=5e10|2e10 TemperatureSlope=0.8|1.2 MagnetizationParameter=0.1|0.01 UseSelfAbsorption=false|true SafetyValue=60|80 DeltaInObj=0.8|1.2 RMax=5|7 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'ThickDisk', 'Metric=m1 NumberDensityAtInnerRadius=1e12 RMax=6 DeltaMaxInsideRMax=2 DeltaInObj=1 SafetyValue=100 VeloParam=0.6,0.7', 'Metric=m2 ThickDiskZGaussianSigma=0.5|0.3 ThickDiskInnerRadius=3|4 UseSelfAbsorption=false|true VeloParam=0.8,0.9|1,1 NumberDensityAtInnerRadius=1e13|1e11 DensitySlope=1.5|1 TemperatureAtInnerRadius=5e10|2e10 TemperatureSlope=0.8|1.2 MagnetizationParameter=0.1|0.01 SafetyValue=60|80 DeltaInObj=0.8|1.2 RMax=5|7 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'Jet', 'Metric=m1 JetOuterOpeningAngle=0.8 JetInnerOpeningAngle=0.5 Parabolic=false JetInnerRadius=2 GammaJet=1.15 BaseNumberDensity=5e13 BaseTemperature=3e10 TemperatureSlope=0.21 MagnetizationParameter=0.01 RMax=20 DeltaInObj=0.5',
     'Metric=m2 Outflowing=false|true JetStagnationRadius=3|4 JetOuterOpeningAngle=0.9|0.85 JetInnerOpeningAngle=0.4|0.6 JetInnerRadius=3|2.5 GammaJet=1.3|1.05 JetVphiOverVr=0.1|0.2 BaseNumberDensity=1e13|2e14 BaseTemperature=1e10|5e10 TemperatureSlope=0.5|0.1 MagnetizationParameter=0.1|0.05 SafetyValue=0.4|2 DeltaInObj=0.7|0.3 RMax=15|25 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'PolishDoughnut', 'Metric=m2 AngMomRinner=3.2,4.2 CentralEnthalpyPerUnitVolume=90000 CentralTemperature=5.3e10 MagnetizationParameter=0.01 OpticallyThin=true RMax=25 AngleAveraged=true DeltaInObj=0.5',
     'Metric=m4 AngMomRinner=3.3,4.3|3.1,4.1 CentralEnthalpyPerUnitVolume=1e5|1e4 CentralTemperature=2e10|1e11 MagnetizationParameter=0.1|0.05 SpectralOversampling=5|20 AngleAveraged=false|true Bremsstrahlung=true|false NonThermalDeltaExpo=0.01,3|0.02,2.5 ChangeCusp=true|false SafetyValue=0.4|2 DeltaInObj=0.7|0.3 RMax=20|30 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'DeformedTorus', 'Metric=m1 Spectrum=s1 LargeRadius=10.8 Beta=0.6 BetaSt=0.5 Eta=0.3 RMax=30', 'Spectrum=s2|s1 LargeRadius=9|8 Beta=0.8|0.4 BetaSt=0.4|0.6 Eta=0.1|0.2 Mode=1|2 PerturbKind=VerticalTranslation|Rotation|Expansion SafetyValue=0.4|2' + ' RMax=25|40 DeltaMaxInsideRMax=0.5|2 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'OscilTorus', 'Metric=m0 LargeRadius=10 PolyCst=0.01 PolyIndex=1.5 CentralDensity=1 PerturbIntens=0.15 SafetyValue=50 RMax=30', 'LargeRadius=9|11 Mode=1|2 PolyCst=0.02|0.005 PolyIndex=1.2|2 CentralDensity=0.5|2 PerturbKind=Vertical|X|Plus|Breathing PerturbIntens=0.1|0.3 RMax=25|40 DeltaMaxInsideRMax=0.5|2 Redshift=false|true ShowShadow=true|false')
kind('astrobj', 'Star', 'Metric=m1 Radius=4 InitCoord=600,9,1.5708,0,1.2074017229839713,0,0,0.042259060304439 Spectrum=s1 Opacity=s3 RMax=50', 'InitCoord=650,8,1.5708,0.5,1.2336281371471012,0,0,0.049345125485884045|700,10,1.4,0.2,1.1801062360207542,0.011801062360207542,0,0.03540318708062262' + US + WL + STD + AO, mut=False)
kind('astrobj', 'StarTrace', 'Metric=m1 Radius=3 InitCoord=600,9,1.5708,0,1.2074017229839713,0,0,0.042259060304439 Spectrum=s1 RMax=50 TMin=600 TMax=800 Adaptive=false Delta=5', 'InitCoord=650,8,1.5708,0.5,1.2336281371471012,0,0,0.049345125485884045|700,10,1.4,0.2,1.1801062360207542,0.011801062360207542,0,0.03540318708062262 TMin=550|650 TMax=780|850 Spectrum=s2|s1 Radius=2|4 Delta=4|3', mut=False)
kind('astrobj', 'InflateStar', 'Metric=m1 Radius=2 InitCoord=600,9,1.5708,0,1.2074017229839713,0,0,0.042259060304439 Spectrum=s1 Opacity=s3 RMax=50 TimeInflateInit=600 TimeInflateStop=1000 RadiusStop=5', 'TimeInflateInit=500|700 TimeInflateStop=1100|900 RadiusStop=6|4 Radius=2|1.5 Spectrum=s2|s1' + WL + AO, mut=False)
kind('astrobj', 'FreeStar', 'Metric=m1 Radius=4 InitPosition=600,9,1.5708,0 InitVelocity=0,0,0.03 Spectrum=s1 Opacity=s3 RMax=50', 'InitPosition=650,8,1.5708,0.5|700,10,1.4,0.2 InitVelocity=0.01,0,0.02|0,0.001,0.03' + US + AO)
kind('astrobj', 'Blob', 'Metric=m1 Radius=4 Init4Coord=600,9,1.5707963267948966,0 Init3Velo=0,0,0 NumberDensity=1e13 Temperature=1e11 KappaIndex=3.5 MagnetizationParameter=0.01 TimeRef=800 TimeSigma=200 RMax=50 OpticallyThin=true',
     'Metric=m3 Init4Coord=650,8,1.5707963267948966,0.5|700,10,1.5707963267948966,0.2 Init3Velo=0.01,0,0.02|0,0.001,0.03 BlobMotionType=HelicalConical|Equatorial TimeGaussianModulated=true|false SpaceGaussianModulated=true|false NumberDensity=1e12|2e13 Temperature=5e10|2e11 TimeRef=700|900 TimeSigma=100|300 MagnetizationParameter=0.1|0.05 KappaIndex=4.5|2.5 ElectronDistribution=PL|Thermal Radius=2|4')
kind('astrobj', 'EquatorialHotSpot', 'Metric=m1 InitCoord=600,9,1.5708,0,1.2074017229839713,0,0,0.042259060304439 SpotRadSize=3 InnerRadius=3 OuterRadius=18 RMax=30', 'SpotRadSize=4|2 BeamingKind=NormalBeaming|RadialBeaming|IsotropicBeaming BeamAngle=0.3|0.1 InitCoord=650,8,1.5708,0.5,1.2336281371471012,0,0,0.049345125485884045|650,8,1.5708,2.5,1.2336281371471012,0,0,0.049345125485884045' + WL + TD + AO, mut=False)
PRELUDE += ['new c1 screen', 'set c1 Metric m1', 'set c1 Distance 3.04e11', 'set c1 Time 1000', 'set c1 Resolution 4', 'set c1 Inclination 1.2', 'set c1 FieldOfView 0.3', 'set c1 Spectrometer r1',
            'new c2 screen', 'set c2 Metric m2', 'set c2 Distance 4e11', 'set c2 Time 500', 'set c2 Resolution 3', 'set c2 Inclination 0.7', 'set c2 FieldOfView 0.25']
kind('scenery', 'Scenery', 'Metric=m1 Screen=c1 Astrobj=t1 Quantities=Intensity', 'Screen=c2 Astrobj=t2 NThreads=2|1 Quantities=EmissionTime|Spectrum|MinDistance|Redshift MinimumTime=-1e4|900'
     + WL.replace(' Integ31=true|false', '').replace('Adaptive=false|true Delta=0.5|0.1', 'Adaptive=false|true Delta=0.8|0.5'), mut=False)
PRELUDE += ['new m0 metric KerrBL', 'set m0 Spin 0', 'set m0 Mass 4.1e36',
            'new m5 metric KerrBL', 'set m5 Spin 0.6',                      # a mass of 1 kg, the default: lengths are written in geometrical units
            'new m6 metric KerrBL', 'set m6 Spin 0.4', 'set m6 Mass 1e20']  # observers from 1 cm to 1 Mpc away
kind('screen', 'Screen', 'Metric=m6 Distance=2e3 Resolution=4 Inclination=1.2', 'Metric=m5 Distance=0.05|0.5|50|5e4|1e9|3e12|2e16|5e16|1e20|1e23 Time=0.01|1e5 FieldOfView=0.1|0.5', label='ScreenNear')
kind('screen', 'Screen', 'Metric=m5 Distance=1e-20 Resolution=4 Inclination=1.2', 'Metric=m6 Distance=2e-24|1e5|3e12|2e16 Dangle1=0.01|0.02 FieldOfView=0.1|0.5', label='ScreenUnitMass')

# mutable parameter of each shared object and its values
ENV = dict(m0=('Spin', ['0', '0.1']), m5=('Spin', ['0.6', '0.65']), m6=('Spin', ['0.4', '0.3']), m1=('Spin', ['0.5', '0.7']), m2=('Spin', ['0.9', '0.85']), m3=('Spin', ['0.8', '0.75']), m4=('Spin', ['0.92', '0.88']), mk=('Spin', ['0.3', '0.6']),
           s1=('Constant', ['1e-3', '5e-3']), s2=('Temperature', ['6000', '8000']), s3=('Constant', ['0.05', '0.01']),
           r1=('NSamples', ['3', '5']), r2=('NSamples', ['2', '4']), c1=('Inclination', ['1.2', '1.3']), c2=('Inclination', ['0.7', '0.6']), t1=('LargeRadius', ['7']), t2=('Radius', ['3']))
REFPROPS = {'Metric', 'SubMetric', 'Spectrum', 'Opacity', 'Spectrometer', 'Astrobj', 'Screen'}
# documented: a property recomputed when another one is set
# (property, property recomputed, its new value: 'auto' when computed)
DERIVED = [('Radius', 'SafetyValue', 'auto'), ('SmallRadius', 'SafetyValue', 'auto'), ('Opacity', 'OpticallyThin', 'true')]
SPHERES = {'FixedStar', 'Star', 'StarTrace', 'InflateStar', 'FreeStar'}   # UniformSphere: giving an opacity makes it optically thin
def derived(kind, names):
    return [(a, d, v) for a, d, v in DERIVED if a in names and d in names and (a != 'Opacity' or kind in SPHERES)]
def envlines(name, as_name, val=None):
    """lines creating a fresh copy of an environment object"""
    res = []
    for l in PRELUDE:
        w = l.split()
        if w[1] == name:
            if w[0] == 'set' and w[3] in ENV:   # refers to another one
                res += envlines(w[3], as_name + '_' + w[3])
                w[3] = as_name + '_' + w[3]
            w[1] = as_name
            res.append(' '.join(w))
    if val is not None: res.append('set %s %s %s' % (as_name, ENV[name][0], val))
    return res

# ---- further properties, set and read (and copied) but not varied in the rendering checks ----
MORE = {}
for n in SPHERES | {'Blob'}: MORE[n] = ''
AOM = ' DeltaMaxInsideRMax=0.5|2 Redshift=false|true ShowShadow=true|false OpticallyThin=true|false MagneticConfiguration=Toroidal|Vertical'
USM = ' IsotropicEmittedIntensity=true|false DeltaMaxOverDistance=0.2|0.05 DeltaMaxOverRadius=0.2|0.05'
MORE['Star'] += ' MinimumTime=-1e4|-3'
MORE['StarTrace'] += WL.replace(' Adaptive=false|true Delta=0.5|0.1', ' Adaptive=true') + ' MinimumTime=-1e4|-3 Opacity=s3' + STD + AO + USM
MORE['InflateStar'] += ' MinimumTime=-1e4|-3' + USM + STD
MORE['FreeStar'] += STD
MORE['Blob'] += ' Spectrum=s2|s1 Opacity=s3|s1' + STD + AOM.replace(' OpticallyThin=true|false', ' OpticallyThin=false|true') + USM
kind('astrobj', 'Blob', 'Metric=m1 Radius=4 BlobMotionType=HelicalConical Init4Coord=600,9,1.1,0 Init3Velo=0.01,0.001,0.02 NumberDensity=1e13 Temperature=1e11 KappaIndex=3.5 MagnetizationParameter=0.01 TimeRef=800 TimeSigma=200 RMax=50 OpticallyThin=true', 'Init4Coord=650,8,1.3,0.5|700,10,1.2,0.2 Radius=2|4', label='BlobHelical')
MORE['EquatorialHotSpot'] = ' MinimumTime=-1e4|-3'
for n in ('SphericalAccretion', 'ThickDisk'): MORE[n] = AOM.replace(' DeltaMaxInsideRMax=0.5|2 Redshift=false|true ShowShadow=true|false', '')
MORE['Jet'] = AOM.replace(' Redshift=false|true ShowShadow=true|false', '') + ' KappaIndex=3|4.5 JetShapeInnerParabolaParam=0.5|0.7 JetShapeOuterParabolaParam=0.6|0.8'
MORE['PolishDoughnut'] = ' DeltaMaxInsideRMax=0.5|2 MagneticConfiguration=Toroidal|Vertical'
MORE['DeformedTorus'] = ' DeltaInObj=0.2|0.1 OpticallyThin=true|false MagneticConfiguration=Toroidal|Vertical'
MORE['OscilTorus'] = MORE['DeformedTorus']
MORE['BalasinGrumiller'] = KEP
for n, t in MORE.items():
    if n in K: K[n]['more'] = [(k, v.split('|')) for k, v in (w.split('=', 1) for w in t.split())]

# ---- units: value in the default unit = value in the unit x factor; L: length unit of the metric (m) ----
import math
C_, G_C2 = 299792458., 6.67428e-11 / 299792458. ** 2
MASSES = {w.split()[1]: float(w.split()[3]) for w in PRELUDE if w.split()[0] == 'set' and w.split()[2] == 'Mass'}
MASSES['m5'] = 1.
def units_of(prop, L, D=None):
    if prop in ('FieldOfView', 'Dangle1', 'Dangle2') and D: return units_of(prop, L) + [('km', 1e3 / D), ('cm', 1e-2 / D)] + ([('geometrical', L / D)] if L else [])
    if prop == 'Mass': return [('g', 1e-3), ('sunmass', 1.98843e30)]
    if prop in ('FreqObs', 'CutOff'): return [('GHz', 1e9), ('kHz', 1e3)]
    if prop in ('FieldOfView', 'PALN', 'Inclination', 'Argument', 'Dangle1', 'Dangle2'): return [('degree', math.pi / 180), ('arcsec', math.pi / 180 / 3600), ('arcmin', math.pi / 180 / 60)]
    if prop == 'Distance': return [('km', 1e3), ('cm', 1e-2), ('AU', 149597870700.)] + ([('geometrical', L)] if L else [])
    if prop in ('Time', 'TimeRef', 'TimeSigma'): return [('h', 3600.), ('ms', 1e-3)] + ([('geometrical_time', L / C_)] if L else [])
    if prop in ('NumberDensity', 'NumberDensityAtInnerRadius', 'BaseNumberDensity'): return [('cm-3', 1e6)]
    if not L: return []
    if prop in ('RMax', 'DeltaMaxInsideRMax', 'Radius', 'InnerRadius', 'OuterRadius', 'Thickness', 'CutRadius', 'RadiusStop', 'Delta'): return [('km', 1e3 / L), ('cm', 1e-2 / L)]
    if prop in ('MinimumTime', 'TimeInflateInit', 'TimeInflateStop'): return [('s', C_ / L), ('h', 3600. * C_ / L)]
    return []
