claim('P06', 'TLA+ model of reference counting (TLC, exhaustive within bounds), TLC-generated histories and thread schedules replayed into SmartPointer, recorded executions checked by TLC trace specification',
      'Model checked for 3 roots, 3-4 objects, 3 threads; every transition of a smaller instance and random walks of 60 steps replayed; thread interleavings forced at mutex gates by an interposed scheduler. Trusts the harness classes and that switching at mutex operations is enough to expose races (free-running threads complement it).')
claim('P07', 'TLA+ model of listener registration (TLC), every model transition and random walks replayed into Hook::Teller/Listener, recorded deliveries checked by TLC trace specification',
      'All transitions of the model with 3 tellers, 3 listeners (one relaying), up to 2-3 registrations per teller, plus walks of 40 steps. A listener that (un)registers while being told is outside the model.')
claim('P01', 'TLA+ model of the parallel pixel loop (TLC, all interleavings), model configurations and schedules forced on Scenery::rayTrace by an interposed scheduler, recorded visits and buffers checked by TLC trace specification',
      'Model: 2-3 threads, all interleavings of four selections x masks x buffer kinds. Implementation: thousands of selections/masks/quantity sets with 1-4 threads under forced schedules (switches at mutex operations and inside the object), plus failing thread creation. Trusts the probe object of the harness.')
claim('P16', 'TLA+ definition of the documented sequences (PixelSeq) and of iteration (PixelSets), every selection of the pool iterated in the real code, traces checked by TLC',
      'Exhaustive over the pool: all ranges in 0..5 with steps 0..3, lists up to 2 (3 in thorough) elements, all grids and pairings of a smaller pool, refused selections included.')
claim('P12', 'TLA+ model of the object heap (ObjectModel, TLC); its histories of parameter changes, interleaved with evaluations, replayed on every kind; each state compared by the trace specification with a fresh object of the same configuration',
      'About 45 kinds x all listed values, sequences of 3 changes per history (4 in thorough) including changes of the metric or spectrum referred to. Oracle: a fresh object set once. Tabulated kinds read from FITS are left to P24/P28; trajectories are reset before being compared (see P08).')
claim('P09', 'TLA+ model of the object heap (ObjectModel, TLC); every order of the settings of a group replayed on every kind, all properties read after each step (plainly, through the other name of booleans, in other units, as text) and checked by the trace specification',
      'About 60 kinds x all properties of the table; groups of 3 settings (5 in thorough). Which properties are derived from others is listed in tools/kinds.py. Values come from a pool, not from the whole domain.')
claim('P10', 'TLA+ model of the object heap (ObjectModel, TLC); histories with XML copies replayed on every kind; each copy compared by the trace specification with a fresh object of the same configuration, and the XML of the copy with the XML of the original',
      'All kinds of the table, configured by up to 4 settings before or after the copy. Renderings are compared to 1e-4 because last-digit differences are amplified by the integrator; property values to 1e-10. Lorene kinds are not built here.')
claim('P11', 'TLA+ model of the object heap (ObjectModel, TLC, NoSharing and Independence); histories of clone, set on either, change of a referred object (shared or own), destruction replayed on every kind; each object compared by the trace specification with a fresh one',
      'All kinds of the table, up to 5 operations per history.')
claim('P13', 'TLA+ model of the object heap (ObjectModel, TLC, Refused); about 3700 refused requests interleaved with settings replayed on every kind; the trace specification requires a Gyoto error and an object equal to a fresh one',
      'Refused requests are generated from the declared type of each property (wrong type, size, unit, text, file, name) and from the ranges the code documents; about 85 kinds. Running out of memory or disk is not modelled.')
claim('P20', 'TLA+ model of spectrometers (Spectro, TLC); every order of settings within bounds and random walks replayed on the real classes, boundaries mapped exactly to the model by the decoder and checked by the trace specification',
      'All sequences of 3 (thorough 4) settings of kind, number of channels, band and unit, walks of 14 operations including copies, the four-argument constructor and refused units. Bands from a pool of exact values; bands with null or negative ends are not judged.')
claim('P21', 'TLA+ model of compound spectrometers (Spectro, TLC: Concatenation, Isolated); every history within bounds and random walks replayed; channels, boundaries and notifications checked by the trace specification after each step',
      'Two uniform and two compound spectrometers (nesting, duplicated parts, clones, XML copies, parts modified through any path), all histories of 3 operations and walks of 25.')
claim('P17', 'TLA+ model of screens, masks and files (Mask, TLC); every history of 3 operations and random walks replayed on Screen; mask, resolution, file, pixel test and actual renderings checked by the trace specification',
      'Two screens, resolutions 2 and 3, six masks, two files written by the history plus multi-plane, non-square, truncated and missing files; walks of 16 operations.')
claim('P05', 'TLA+ model of the requested quantities (Quantities, TLC); every history of requests within bounds and random walks replayed on Scenery; string, bitfield, counts and the planes actually written, with their units, checked by the trace specification',
      'All single names, pairs and sampled lists of names with units, unknown names and incompatible units, requests replaced by others and clones; the planes are produced by ray-tracing a probe object. Image-order planes (User1-3 of the equatorial-plane counting mode) are judged for their place, not their content.')
claim('P26', 'TLA+ model of radiative transfer along a ray (Transfer, TLC, exact arithmetic); rays of the model replayed through Photon::hit and Scenery with a probe object; accumulated intensities, spectra and Stokes parameters checked by the trace specification',
      'Encounters with emission, transmission 0, 1/2 or 1 per channel (Mueller matrices when polarised) and shifts by powers of two: all pairs in the model, sampled pairs and rays of four encounters in the code, any subset of the quantities, with and without spectrometer. Objects that override the accumulation (PageThorneDisk, bolometric and profile disks) are only covered through the other properties.')
claim('P02', 'TLA+ model of renderings (Render, TLC: the value of a pixel is a function of scenery and pixel); histories of renderings, masks and clones generated by TLC replayed on 25 sceneries; every value checked by the trace specification against the pixel computed alone by a fresh scenery',
      'Images of 5x5 pixels, 25 sceneries over 7 metrics and 16 objects, histories of 7 operations; grids, lists, sub-images, single pixels and angles; 1-4 threads; any subset of quantities. Optically thin sceneries are judged on accumulated quantities only, because where a ray stops depends on what is being accumulated.')
claim('P04', 'TLA+ model of renderings (Render, TLC: reuse gives the value of the recorded pixel); histories recording impacts and reusing them generated by TLC and replayed on opaque sceneries; every value checked by the trace specification against the directly rendered pixel',
      'Thirteen opaque, unpolarised sceneries, 5x5 pixels, reuse through grids, sub-images, lists and single pixels with 1-4 threads, with masks and clones. Distances and counts of crossings are not defined by an impact and are not judged.')
claim('P03', 'TLA+ model of the manager/worker protocol (Mpi, TLC with liveness); behaviours of the model, including the order in which the manager hears from its workers, forced on real MPI processes by interposed MPI calls; recorded messages and images checked by the trace specification',
      'Model: 2-3 workers, up to 3 pixels, all interleavings, masks and resent sceneries. Implementation: 1-4 worker processes, about 25 sceneries, selections of 1-25 pixels, units, reuse of impacts, workers counted after release. Images are compared with the in-process ones to 1e-4 because numbers sent as XML differ in the last digit. Workers that fail are not modelled.')
claim('P27', 'TLA+ model of the command line (Cli, TLC); every option sequence of the model within bounds run through the real gyoto executable; exit status, planes, labels, pixels and values of the FITS file checked by the trace specification',
      'Options for pixel ranges, screen, quantities, time and FITS output on small sceneries, about 400 runs (thorough: 3000); values compared with renderings by the library. Options documented only for debugging are not judged.')
claim('P08', 'TLA+ model of worldlines (Worldline, TLC: no stale point); every history of changes, computations and queries within bounds and random walks replayed on photons and stars; each answer checked by the trace specification against a fresh worldline with the same parameters',
      'Photons and stars over several metrics (shared metric mutated directly, metric replaced, initial coordinates, basis tracking, reset, clones). Changes of the integration limits held by the metric, and of the elements of a Complex metric after they were appended, are not followed by the code and are not judged.')
claim('P14', 'TLA+ model of worldlines (Worldline, TLC: extensions keep the points, window and order); histories of forward/backward extensions replayed; all stored points recorded after every step and compared by the trace specification with those stored before',
      'Extensions through every entry point, arrays forced to grow on either side, five integrators, photons and stars. Reaching the requested date is judged only on rays that do not plunge and, with fixed steps, do not cross the axis. Integ31 is excluded.')
claim('P15', 'TLA+ model of worldlines (Worldline, TLC: answers are a function of trajectory and date); histories of queries (orders, groupings, subsets of components) replayed; each answer checked by the trace specification against the answer of a fresh worldline asked once',
      'Dates inside, at and beyond the stored points; all component subsets. The Legacy integrator has no proper time nor basis; interpolation of phi across 2 pi is not judged.')
claim('P22', 'TLA+ model of compound objects and metrics (Compound, TLC); every history of appending, removing, replacing, cloning and setting metrics within bounds and random walks replayed on Astrobj::Complex and Metric::Complex; parts, metrics, rays and coefficients checked by the trace specification, which computes the sums itself',
      'Four kinds of parts, two compounds, rays through probe parts (order of processing, sub-steps, transmission) and compounds of shipped objects compared with their parts on the same stored ray. Metric values in units of 1e-5 at four points. Parts whose own parameters change later are left to P12.')
claim('P23', 'TLA+ model of units in exact arithmetic (Units, TLC: numbers are vectors of exponents); every conversion, chain of conversions, converter history and property history of the model replayed on Units::Converter, the To/From functions and properties with units; each number checked by the trace specification',
      '32 units (lengths, times, frequencies, energies, masses, others, unknown and malformed), eleven properties with units of five kinds of objects, metrics of several masses and none; numbers to 1e-9. The numerical values of astronomical constants are taken from the code by one measurement each.')
