"""Small sceneries used by the rendering checks (P02, P03, P04, P27)."""
M = dict(bl='<Metric kind="KerrBL"><Spin>0.6</Spin></Metric>', bl0='<Metric kind="KerrBL"><Spin>0</Spin><Mass unit="sunmass">4e6</Mass></Metric>', ks='<Metric kind="KerrKS"><Spin>0.6</Spin></Metric>',
         mks='<Metric kind="Minkowski"><Spherical/></Metric>', mkc='<Metric kind="Minkowski"><Cartesian/></Metric>',
         rz='<Metric kind="RezzollaZhidenko"><Rms>6</Rms><Rmb>4</Rmb></Metric>', hw='<Metric kind="Hayward"><Spin>0.5</Spin><Charge>0.3</Charge></Metric>', cs='<Metric kind="ChernSimons"><Spin>0.3</Spin><DzetaCS>0.05</DzetaCS></Metric>')
PL = lambda c, e=0, tag='Spectrum': '<%s kind="PowerLaw"><Exponent>%s</Exponent><Constant>%s</Constant></%s>' % (tag, e, c, tag)
BB = '<Spectrum kind="BlackBody"><Temperature>6000</Temperature></Spectrum>'
OP = lambda c: PL(c, 0, 'Opacity')
def star(kind='Star', thin=False, t=600, r=2, extra='', sp=BB, op=0.1): return '<Radius>%s</Radius><Velocity>0 0 0.037037</Velocity><Position>%s 9 1.5708 0</Position>%s%s<RMax>50</RMax>%s%s' % (r, t, sp, OP(op), '<OpticallyThin/>' if thin else '<OpticallyThick/>', extra)
A = dict(
  fixed='<Astrobj kind="FixedStar"><Radius>7</Radius><Position>11 1.4 0.5</Position>%s<OpticallyThick/></Astrobj>' % PL('1e-3', 1),
  fixedthin='<Astrobj kind="FixedStar"><Radius>7</Radius><Position>11 1.4 0.5</Position>%s%s<OpticallyThin/><DeltaInObj>0.5</DeltaInObj></Astrobj>' % (PL('1e-3'), OP('1e-5')),
  fixedc='<Astrobj kind="FixedStar"><Radius>7</Radius><Position>8 5 2</Position>%s<OpticallyThick/></Astrobj>' % PL('1e-3', 1),
  starc='<Astrobj kind="Star"><Radius>5</Radius><Velocity>0 0.33 0</Velocity><Position>600 9 0 0</Position>%s%s<RMax>50</RMax><OpticallyThick/></Astrobj>' % (BB, OP(0.1)),
  star='<Astrobj kind="Star">%s</Astrobj>' % star(r=5),
  starthin='<Astrobj kind="Star">%s</Astrobj>' % star(thin=True, r=4, sp=PL(1), op=1e-6, extra='<DeltaInObj>0.5</DeltaInObj>'),
  trace='<Astrobj kind="StarTrace">%s</Astrobj>' % star(r=2, extra='<TMin>600</TMin><TMax>800</TMax><NonAdaptive/><Delta>5</Delta>'),
  inflate='<Astrobj kind="InflateStar">%s</Astrobj>' % star(r=2, extra='<TimeInflateInit>800</TimeInflateInit><TimeInflateStop>950</TimeInflateStop><RadiusStop>8</RadiusStop>'),
  disk='<Astrobj kind="ThinDisk"><InnerRadius>6</InnerRadius><OuterRadius>20</OuterRadius></Astrobj>',
  pt='<Astrobj kind="PageThorneDisk"><Mdot>1e17</Mdot></Astrobj>',
  torus='<Astrobj kind="Torus"><LargeRadius>8</LargeRadius><SmallRadius>3</SmallRadius>%s%s<OpticallyThin/><RMax>30</RMax><DeltaInObj>0.5</DeltaInObj></Astrobj>' % (PL(1), OP('1e-6')),
  torusthick='<Astrobj kind="Torus"><LargeRadius>8</LargeRadius><SmallRadius>3</SmallRadius>%s<OpticallyThick/><RMax>30</RMax></Astrobj>' % PL(1, 1),
  doughnut='<Astrobj kind="PolishDoughnut"><AngleAveraged/><AngMomRinner>4. 8.</AngMomRinner><CentralEnthalpyPerUnitVolume unit="erg/cm3">2000000</CentralEnthalpyPerUnitVolume><CentralTemperature>7e9</CentralTemperature><MagnetizationParameter>0.002</MagnetizationParameter><OpticallyThin/><RMax>50</RMax><DeltaInObj>1</DeltaInObj></Astrobj>',
  jet='<Astrobj kind="Jet"><NonParabolic/><JetOuterOpeningAngle>0.6</JetOuterOpeningAngle><JetInnerOpeningAngle>0.3</JetInnerOpeningAngle><JetInnerRadius>2.</JetInnerRadius><GammaJet>1.15</GammaJet><BaseNumberDensity unit="cm-3">5e7</BaseNumberDensity><BaseTemperature>3e10</BaseTemperature><TemperatureSlope>0.21</TemperatureSlope><MagnetizationParameter>0.01</MagnetizationParameter><RMax>50</RMax><DeltaInObj>1</DeltaInObj></Astrobj>',
  spot='<Astrobj kind="EquatorialHotSpot"><OpticallyThin/><Velocity>0 0 0.0441942</Velocity><Position>900 8 1.5707963267949 1.25</Position><SpotRadSize>9</SpotRadSize><BeamingKind>IsotropicBeaming</BeamingKind><InnerRadius>3</InnerRadius><MagneticConfiguration>Vertical</MagneticConfiguration><RMax>30</RMax></Astrobj>',
  oscil='<Astrobj kind="OscilTorus"><LargeRadius>10.8</LargeRadius><Mode>1</Mode><PolyCst>0.01</PolyCst><PolyIndex>0.01</PolyIndex><CentralDensity>0.01</CentralDensity><PerturbKind>Breathing</PerturbKind><PerturbIntens>0.15</PerturbIntens><OpticallyThick/><RMax>50</RMax><SafetyValue>50</SafetyValue></Astrobj>',
  thick='<Astrobj kind="ThickDisk"><ThickDiskInnerRadius>4</ThickDiskInnerRadius><NumberDensityAtInnerRadius unit="cm-3">6e6</NumberDensityAtInnerRadius><TemperatureAtInnerRadius>5e10</TemperatureAtInnerRadius><TemperatureSlope>1</TemperatureSlope><MagnetizationParameter>0.01</MagnetizationParameter><RMax>30</RMax><DeltaInObj>1</DeltaInObj></Astrobj>',
  complex='<Astrobj kind="Complex"><SubAstrobj kind="Star">%s</SubAstrobj><SubAstrobj kind="ThinDisk"><InnerRadius>6</InnerRadius><OuterRadius>14</OuterRadius></SubAstrobj><SubAstrobj kind="FixedStar"><Radius>4</Radius><Position>10 1.2 2</Position>%s%s<OpticallyThin/></SubAstrobj></Astrobj>' % (star(thin=True, r=4, sp=PL(1), op=1e-6), PL(1), OP('1e-6')),
  profile='<Astrobj kind="ThinDiskProfile"><InnerRadius>4</InnerRadius><OuterRadius>20</OuterRadius><Model_param>1 2 1 0 3</Model_param></Astrobj>',
)
DIST = {'mks': 100, 'mkc': 100}
SCR = '<Screen><Distance unit="geometrical">100</Distance><Time unit="geometrical_time">1000</Time><Inclination unit="degree">%s</Inclination><PALN unit="degree">20</PALN><Argument unit="degree">-40</Argument><FieldOfView unit="radian">%s</FieldOfView><Resolution>5</Resolution><Spectrometer kind="%s" nsamples="%d">%s</Spectrometer></Screen>'
def scene(m, a, q, opaque, inc=70, fov=0.35, chan=3, spec='wave', band='2.0e-6 2.4e-6', more='<MinimumTime>-1000</MinimumTime>'):
    return dict(xml='<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<Scenery>%s%s%s%s</Scenery>\n' % (M[m], SCR % (inc, fov, spec, chan, band), A[a], more), quantities=q.split(), opaque=opaque)
SC = 'Intensity EmissionTime MinDistance FirstDistMin Redshift Spectrum BinSpectrum ImpactCoords'
TH = 'Intensity Spectrum BinSpectrum'
SCENES = dict(
  fixed_bl=scene('bl', 'fixed', SC, True), fixed_ks=scene('ks', 'fixedc', SC, True), fixed_mks=scene('mks', 'fixed', SC, True), fixed_mkc=scene('mkc', 'fixedc', SC, True),
  fixed_rz=scene('rz', 'fixed', SC, True), fixed_hw=scene('hw', 'fixed', SC, True), thin_bl=scene('bl', 'fixedthin', TH, False),
  star_bl=scene('bl', 'star', SC, True), star_ks=scene('ks', 'starc', SC, True), starthin=scene('bl', 'starthin', TH, False), trace=scene('bl', 'trace', 'Intensity MinDistance Redshift EmissionTime', True),
  inflate=scene('bl', 'inflate', SC, True), disk_bl=scene('bl', 'disk', 'Intensity EmissionTime Redshift Spectrum BinSpectrum ImpactCoords NbCrossEqPlane', True, inc=60, fov=.5), disk_ks=scene('ks', 'disk', 'Intensity EmissionTime Redshift Spectrum BinSpectrum ImpactCoords', True, inc=60, fov=.5),
  pt=scene('bl0', 'pt', 'User4 Redshift EmissionTime Spectrum ImpactCoords', True, inc=60, fov=.5), torus=scene('bl', 'torus', 'Intensity BinSpectrum', False), torusthick=scene('ks', 'torusthick', SC.replace('Spectrum ', '', 1), True),
  doughnut=scene('bl0', 'doughnut', TH, False, spec='freq', band='1e11 3e11'), jet=scene('bl0', 'jet', 'Spectrum', False, spec='freq', band='1e11 3e11', inc=50), oscil=scene('bl0', 'oscil', 'Intensity Spectrum Redshift', True, inc=80, fov=.4),
  thick=scene('bl0', 'thick', 'Spectrum', False, spec='freq', band='1e11 3e11'), complex=scene('bl', 'complex', TH, False, inc=70, fov=.35),
  polar_disk=scene('bl0', 'pt', 'Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV Redshift', True, inc=60, fov=.5, more='<MinimumTime>-1000</MinimumTime><ParallelTransport/>'),
  spot=scene('bl0', 'spot', 'Spectrum SpectrumStokesQ SpectrumStokesU SpectrumStokesV', True, inc=40, fov=.3, chan=1, more='<MinimumTime>-1000</MinimumTime><ParallelTransport/>'),
  profile=scene('bl0', 'profile', 'Spectrum', False, chan=1, spec='freq', band='1e11 3e11', inc=60, fov=.5, more='<MinimumTime>-1000</MinimumTime><MaxCrossEqplane>2</MaxCrossEqplane>'),
)
# Torus computes Spectrum and everything else from two different models of emission: known finding of P02
TORUS = dict(torusspec=scene('ks', 'torusthick', SC, True))
