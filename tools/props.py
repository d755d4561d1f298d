#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=hook)))

prop('P01', 'Ray-tracing computes every selected pixel exactly once, into its own cell',
     'For any selection of pixels (ranges with steps, explicit index lists, angle lists, with or without a screen mask), any number of threads and any schedule of them, ray-tracing returns after having traced each selected, unmasked pixel exactly once and no other pixel. Each result lands in the output cell of that pixel: at its (row, column) place in a full-size image buffer, or at its rank in the selection otherwise; the cell of a masked pixel is set to the "nothing hit" values. No cell outside the selection is written.',
     'schedules inputs configurations', 'all pixel selections, masks, thread counts and thread interleavings',
     'The suite renders a few scenes with fixed thread counts and only checks that rendering does not fail; it does not control interleavings, count pixel visits, or check cell placement for sub-selections.',
     'lib/Scenery.C lib/Screen.C include/GyotoScenery.h',
     [('per-pixel fetch under the shared mutex', 'Scenery.C SceneryThreadWorker'), ('pointer advance of the output set', 'Astrobj::Properties::operator++ / operator+=')],
     [('ij', 'shared cursor in the pixel selection', 'SceneryThreadWorkerArg'), ('data', 'shared cursor in the output buffer', 'SceneryThreadWorkerArg')],
     ['rayTrace() return, output buffers, pixel visits seen by the astronomical object'])
prop('P02', 'Image values do not depend on threads, order, subset or repetition',
     'The value computed for a pixel is a function of the scenery and of that pixel only. It is the same whatever the number of threads, whatever other pixels are computed in the same call or were computed before, in whatever order, for any set of requested quantities that includes it, and whether the call is repeated on the same scenery, on a clone of it, or pixel by pixel.',
     'schedules histories configurations', 'all thread counts, pixel orders, subsets, quantity subsets and repetitions of calls',
     'The suite does not compare renderings with each other.',
     'lib/Scenery.C lib/Photon.C lib/Astrobj.C lib/Screen.C lib/WorldlineIntegState.C',
     [('each thread works on its own clones', 'Scenery.C SceneryThreadWorker'), ('photon reset between pixels', 'Photon::setInitialCondition / reset')],
     None, ['output buffers of rayTrace() and of single-pixel calls'])
prop('P03', 'Distributed (MPI) rendering gives the in-process result',
     'Rendering a scenery with worker processes gives, for every selection of pixels and every set of requested quantities, the values that rendering it in-process gives, for any number of workers; every pixel is handed to exactly one worker and all workers are released at the end.',
     'schedules configurations inputs', 'number of workers, selections, requested quantities, message interleavings',
     'The MPI test of the suite does not run reliably here and only checks that the call does not fail.',
     'lib/Scenery.C bin/gyoto-mpi-worker.C bin/gyoto.C',
     [('manager/worker loop, tags and result vector layout', 'Scenery.C rayTrace, mpi sections; gyoto-mpi-worker.C')], None, ['FITS image produced with -P vs without'])
prop('P04', 'Impact coordinates recorded in one rendering can be reused in another',
     'Rendering with impact coordinates given as input takes, for each pixel, exactly the photon/object coordinates recorded for that pixel, and gives the values the direct rendering gives when object and metric are the same; pixels recorded as missing the object get the "nothing hit" values.',
     'inputs configurations', 'selections, masks, quantities', 'The suite does not use impact-coordinate input.',
     'lib/Scenery.C lib/Astrobj.C bin/gyoto.C', [('impactcoords path', 'Scenery::operator(), SceneryThreadWorker')])
prop('P05', 'Requested quantities select exactly the named planes, in the documented layout',
     'Setting the requested quantities from any list of names (with optional unit suffixes) selects exactly those quantities; the string, the bitfield and the scalar/spectral counts always agree with each other, the string that is read back gives the names selected (without their units) and selects the same quantities when set again, and a list with an unknown name is an error and changes nothing. Every requested quantity ends up in its own part of the output, in the unit asked for.',
     'inputs histories', 'all subsets and orders of quantity names, unit suffixes, repeated settings', 'The suite uses two or three fixed lists.',
     'lib/Scenery.C lib/Astrobj.C include/GyotoDefs.h bin/gyoto.C', [('name parsing and counting', 'Scenery::setRequestedQuantities, getRequestedQuantitiesString, getScalarQuantitiesCount, getSpectralQuantitiesCount')])
prop('P06', 'A shared object lives exactly as long as something refers to it',
     'An object held through smart pointers is destroyed exactly once, and exactly when the last smart pointer referring to it is reassigned, reset or destroyed, for every sequence of constructions, copies, casts, assignments (from smart or plain pointers, including to itself and to an object owned by the previous target) and value copies between the objects themselves, and for every interleaving of threads doing so on their own pointers. Dereferencing a null smart pointer raises an error.',
     'histories schedules', 'all operation sequences and all thread interleavings', 'Tests sample a few histories, single-threaded, and do not observe destruction.',
     'include/GyotoSmartPointer.h lib/SmartPointer.C', [('reference counting under a per-object mutex', 'SmartPointer.C incRefCount/decRefCount'), ('assignment order', 'GyotoSmartPointer.h operator=')],
     [('refCount', 'number of smart pointers to the object', 'SmartPointee')], ['object destruction', 'getRefCount()'])
prop('P07', 'Every change notification reaches exactly the current listeners',
     'When an object announces a change, each listener currently registered with it is told, once per registration, with the announcing object as argument; listeners removed before the announcement, listeners of other objects and of copies are not told. Removing a listener removes all of its registrations and nobody else\'s, whatever the order of registration, and removing an unknown listener changes nothing.',
     'histories', 'all sequences of register/unregister/announce/copy on several objects', 'No test of the suite exercises registration order or removal.',
     'lib/Hooks.C include/GyotoHooks.h', [('listener list', 'Teller::hook/unhook/tellListeners')], [('listeners_', 'linked list of registrations', 'Teller')], ['Listener::tell'])
prop('P08', 'A trajectory never answers from before its last change of parameters',
     'After any sequence of changes to a worldline (metric, parameters of that metric, initial coordinates, tracking of a polarisation basis, reset) interleaved with trajectory computations and queries, every query answers as a freshly built object with the same current parameters would: points computed under another metric, other metric parameters, other initial coordinates or before a reset are never returned. Integration settings (integrator, tolerances, limits) apply to points computed after they are set; after a reset everything is as in a fresh object with those settings.',
     'histories', 'all interleavings of setters, metric mutations, computations and queries, for photons and stars, over every metric', 'The suite mutates at most one parameter once.',
     'lib/Worldline.C lib/Photon.C lib/Star.C lib/WorldlineIntegState.C lib/Metric.C lib/Hooks.C', [('listening to the metric and resetting the cached points', 'Worldline::tell, Worldline::metric, Worldline::reInit')],
     [('x0_..x3_, imin_, imax_', 'stored points', 'Worldline')], ['getCoord', 'get_xyz', 'get_nelements'])
prop('P09', 'What a property is set to is what it reads as, and nothing else changes',
     'For every registered kind of object and every one of its properties, setting a valid value and reading it back gives that value, in the unit used to set it and, converted, in any compatible unit; a yes/no property set under one of its two names reads as its negation under the other. Setting one property leaves every property not documented as derived from it unchanged, and the result of setting several independent properties does not depend on the order.',
     'inputs histories configurations', 'all kinds, all properties, all values of a value pool, all orders of sets', 'Tests set a few properties of a few kinds once.',
     'lib/Object.C lib/Property.C lib/Value.C include/GyotoProperty.h', [('property tables and accessors', 'Object::set/get, GYOTO_PROPERTY_* lists of each class')])
prop('P10', 'Writing an object to XML and reading it back gives the same object',
     'For every object that can be built and configured through properties (metric, astronomical object, spectrum, spectrometer, screen, photon, whole scenery, nested to any depth), reading the XML written for it gives an object of the same kind with the same value of every property (to the 15 significant digits written) and the same observable behaviour, and writing that object again gives the same XML.',
     'inputs configurations histories', 'all kinds, property values, nestings', 'The suite compares at most a handful of files by eye (no equality assertion over kinds).',
     'lib/Factory.C lib/FactoryMessenger.C lib/Object.C lib/Scenery.C lib/Screen.C lib/ComplexAstrobj.C lib/ComplexMetric.C lib/ComplexSpectrometer.C', [('fillElement / setParameters pairs', 'each class')])
prop('P11', 'A clone equals its original and is independent of it',
     'A clone of any object has the same kind, the same value of every property and the same observable behaviour as its original, and afterwards no change to either (or to anything reachable from it that is documented as copied, such as nested objects) shows through the other. Destroying one leaves the other usable.',
     'histories configurations', 'all kinds, all configurations, all subsequent mutation sequences of either side', 'Cloning is exercised only by rendering with several threads.',
     'lib/Metric.C lib/Astrobj.C lib/Screen.C lib/Scenery.C lib/Photon.C lib/Worldline.C lib/Spectrum.C lib/Spectrometer.C', [('copy constructors and clone()', 'each class')])
prop('P12', 'Behaviour depends only on current parameters, not on how they were reached',
     'For every kind of metric, astronomical object and spectrum, the values it computes (metric coefficients, Christoffel symbols, circular velocity, emission, ...) depend only on its current parameters: an object brought to them by any sequence of changes, interleaved with evaluations, computes what a fresh object given these parameters computes. This includes changing the parameters of a metric while it is attached to an object.',
     'histories', 'all sequences of parameter changes and evaluations', 'Tests configure each object once before using it.',
     'lib/KerrBL.C lib/KerrKS.C lib/Hayward.C lib/PageThorneDisk.C lib/Torus.C lib/PolishDoughnut.C lib/ThinDisk.C lib/Metric.C', [('recomputation of derived members in setters and tell()', 'setters, tell()')])
prop('P13', 'A failed operation raises an error and leaves the object as it was',
     'Every invalid request (unknown property or kind, wrong type of value, wrong number of values, out-of-range value, incompatible unit, unknown plug-in, unreadable file) is reported as a Gyoto error, never a crash, a silent acceptance or another exception, and the object it was made on keeps its previous properties and behaviour. (Documented exceptions: an unreadable screen mask and an unknown element directly under Scenery are ignored with a warning.)',
     'inputs histories fault_sequences', 'all kinds, properties and invalid values, at any point of a history', 'The suite has almost no negative tests.',
     'lib/Object.C lib/Value.C lib/Property.C lib/Converters.C lib/Register.C lib/Scenery.C lib/Screen.C', [('validation before assignment', 'setters')])
prop('P14', 'Extending a trajectory keeps what was already computed',
     'Extending a stored trajectory in either direction, by any amount, any number of times and in any order, keeps every point already stored unchanged and in place relative to the initial point, keeps dates strictly monotonic, includes the initial condition, and reaches the requested date unless a documented stop condition is met.',
     'histories', 'all interleavings of forward/backward extensions and array reallocation', 'Tests compute a trajectory once.',
     'lib/Worldline.C', [('array growth on both sides', 'Worldline::xExpand, xFill')], [('imin_, i0_, imax_', 'window of valid points', 'Worldline')], ['get_t', 'get_xyz', 'getCoord'])
prop('P15', 'Positions read from a trajectory do not depend on the queries made before',
     'Reading the position and velocity on a trajectory at any list of dates gives, at the date of a stored point, exactly that point, and at any date a value that depends on the trajectory and the date but not on the order or the number of the queries, on which dates are asked together, nor on which components are asked for.',
     'histories inputs', 'all query orders, groupings and component subsets', 'Tests query one list of dates once.',
     'lib/Worldline.C', [('getCoord with dichotomy and local re-integration', 'Worldline::getCoord')])
prop('P16', 'Pixel selections enumerate exactly the documented pixels in the documented order',
     'Iterating over a pixel selection (range with any start, stop and step, explicit list, repeated value, grid of two selections, or bucket of paired selections) yields exactly its documented sequence of pixels or angles, its announced size is the length of that sequence, and restarting the iteration yields the same sequence again.',
     'inputs histories', 'all ranges, lists, combinations, iteration/restart interleavings', 'Tests use a few ranges only through rendering.',
     'lib/Screen.C include/GyotoScreen.h', [('Range/Indices/Grid/Bucket iterators', 'Screen.C')])
prop('P17', 'The screen mask designates the same pixels through every interface',
     'After any sequence of setting, loading, saving, replacing and dropping a mask and changing the resolution, a pixel is rendered if and only if the current mask value there is non-zero (all pixels when there is no mask); a mask file that is not square or cannot be read is refused without changing anything, changing the resolution drops the mask; the mask written to a file and read back is the same; clones carry the same mask, and so does an XML copy when the mask has a file.',
     'histories inputs', 'all histories of mask and resolution operations', 'The suite never sets a mask.',
     'lib/Screen.C', [('mask storage and lookup', 'Screen::mask, maskWrite, fitsReadMask, operator()')])
prop('P19', 'Kinds are created by the right plug-in and unknown kinds are errors',
     'Asking for an object of a given kind gives an object of that kind built by the plug-in named (or by the first registered provider when none is named), or an error if there is none; loading a plug-in makes exactly its kinds available, loading it twice changes nothing, and a failure to load leaves the registry unchanged.',
     'histories inputs', 'all sequences of plug-in loads, registrations, lookups with and without plug-in lists', 'The suite loads each plug-in once and looks kinds up without plug-in lists.',
     'lib/Register.C include/GyotoRegister.h lib/Astrobj.C lib/Metric.C lib/Spectrum.C lib/Spectrometer.C', [('linked list of entries per category', 'Register::Entry::getSubcontractor, loadPlugin, requirePlugin, init')])
prop('P20', 'Spectrometer channels tile the band in the documented way',
     'Whatever the order in which kind, number of samples, band and units are set, a uniform spectrometer has exactly the requested number of channels, adjacent channels share a boundary, the outer boundaries are the band given (in the documented spacing, converted from the unit used), the midpoint of a channel is the mean of its two boundary frequencies and its width their distance, in any unit asked for; the band reads back as it was set, in its unit or any other.',
     'histories inputs configurations', 'all set orders of kind/nsamples/band/unit', 'The suite uses two spectrometers built once.',
     'lib/UniformSpectrometer.C lib/Spectrometer.C', [('recomputation of the channels in each setter', 'Uniform::reset_')])
prop('P21', 'A compound spectrometer is always the concatenation of its parts',
     'At any time, after any sequence of appending, removing and modifying parts, a compound spectrometer has the channels of its parts, in order, with the corresponding boundaries, midpoints and widths, and tells its own listeners whenever that changes; parts removed no longer influence it.',
     'histories', 'all append/remove/mutate histories', 'The suite never mutates a compound spectrometer.',
     'lib/ComplexSpectrometer.C', [('listening to the parts and rebuilding', 'Spectrometer::Complex::tell, append, remove')])
prop('P22', 'Compound objects and metrics are the ordered collection of their parts',
     'After any sequence of appending and removing parts, a compound astronomical object or metric contains exactly the remaining parts in order (out-of-range access is an error), all of them in the same metric when one is set on the compound; a ray hits the compound if and only if it hits one of its parts, the nearest parts being processed along the ray, and the coefficients of a compound metric and their derivatives are the sums of those of its parts, all in one system of coordinates.',
     'histories inputs', 'all append/remove/set-metric histories', 'The suite builds one compound object once.',
     'lib/ComplexAstrobj.C lib/ComplexMetric.C', [('element arrays', 'append, remove, operator[], metric(), Impact, gmunu')])
prop('P23', 'Unit conversions are consistent',
     'Converting a value to any compatible unit and back gives the value, direct and chained conversions agree, values given or asked for in geometrical units are converted with the mass the metric has at that moment (radii of objects are kept in geometrical units, the distance and date of a screen in SI units), and an incompatible or unknown unit is an error rather than an unconverted number.',
     'inputs histories', 'all pairs/chains of units over all unit-bearing properties and metric masses', 'The suite converts two or three values.',
     'lib/Converters.C lib/Units.C lib/Metric.C', [('udunits wrappers', 'Units::Converter, ToMeters, FromMeters, ...')])
prop('P24', 'Data written to FITS files reads back unchanged',
     'For every object with a FITS representation (tabulated disks, 3-D disks, directional disks, grid data, screen masks), a file written from it and read into a new object gives the same grid dimensions, axes and values, and hence the same emission; a malformed or missing file is an error that leaves the object usable.',
     'inputs configurations', 'all grid sizes, symmetries, optional axes present or not', 'The suite reads shipped files but never compares a written file with its source.',
     'lib/PatternDisk.C lib/DirectionalDisk.C lib/Disk3D.C lib/GridData2D.C lib/FitsRW.C lib/Screen.C', [('fitsRead/fitsWrite pairs', 'each class')])
prop('P25', 'Default implementations agree with whatever the user overrides',
     'For an object or metric defined by overriding any of the documented alternatives (scalar or vector emission, integrated emission, transmission, unpolarised or polarised transfer; covariant or contravariant metric coefficients, Christoffel symbols, all at once or one by one), all other entry points give values consistent with the overridden ones, whichever is called first, and never recurse for ever.',
     'programs histories', 'all subsets of overrides and call orders', 'Tests only use shipped kinds.',
     'lib/Astrobj.C lib/Metric.C lib/Spectrum.C', [('default methods delegating to each other', 'Astrobj::Generic emission/integrateEmission/radiativeQ, Metric::Generic gmunu/gmunu_up/christoffel, Spectrum::Generic')])
prop('P26', 'Intensity along a ray accumulates what each crossing emits and transmits',
     'The intensity and spectrum attributed to a ray are the sum over its encounters, ordered along the ray, of the emission of the object at each one, attenuated by the product of the transmissions of all encounters nearer to the observer and shifted by the documented power of the redshift; encounters behind an opaque one contribute nothing, and a quantity not requested does not influence the others.',
     'inputs programs configurations', 'all sequences of encounters (emission, transmission) and quantity subsets', 'The suite checks no intensity along a ray with several crossings.',
     'lib/Astrobj.C lib/Photon.C', [('processHitQuantities and per-photon transmission', 'Astrobj::Generic::processHitQuantities, Photon::transmit, transmissionMatrix')])
prop('P27', 'The command-line tool computes and stores exactly what its options ask',
     'For every combination of pixel ranges, quantities, thread or process counts and parameter overrides, the gyoto program writes a FITS image with one plane per requested quantity and channel, labelled accordingly, in which the selected pixels hold the values the library computes with these options and all other pixels are unset; on an error it exits with a failure status and reports it.',
     'inputs configurations', 'all option combinations', 'The suite runs the program with a few option sets and checks only the exit status.',
     'bin/gyoto.C', [('option parsing and plane bookkeeping', 'bin/gyoto.C main')])
prop('P28', 'Tabulated data are looked up in the right cell',
     'A value read from tabulated data (2-D grids, pattern disks, directional disks, 3-D disks) at a point is that of the cell, or the interpolation of the neighbouring samples, designated by the documented axes; at a sample it is exactly the sample, everywhere it lies between the neighbouring samples, and a point outside the grid gets the documented outside value or error, never memory outside the table.',
     'inputs', 'all grids and positions including both ends of every axis', 'The suite never compares a lookup with the table.',
     'lib/GridData2D.C lib/PatternDisk.C lib/DirectionalDisk.C lib/Disk3D.C', [('index search and interpolation', 'getIndice, getIndices, interpolate')])

# ---- claimed checks -----------------------------------------------------------
CLAIMED = {}
NOTE = {}
def claim(pid, technique, note, level='model_checking'):
    CLAIMED[pid] = (technique, note, level)
exec(open(os.path.join(V, 'tools', 'claims.py')).read())

NA = {}
exec(open(os.path.join(V, 'tools', 'na.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        if p['id'] in CLAIMED:
            t, n, l = CLAIMED[p['id']]
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py ' + p['id'],
                               thorough_cmd='python3 tools/check.py %s --thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=t, level=l, level_note=n))
    m = dict(version=1, setup_cmd='python3 tools/vbuild.py', checks=checks,
             not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p['id'] not in CLAIMED],
             notes='TLA+ specifications in spec/, checked with TLC; drivers in harness/ are compiled against /repo by tools/vbuild.py.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
if __name__ == '__main__':
    main()
