NA = {
 'P19': 'not built: the registry of kinds and plug-ins is addressable (probe plug-ins), only the refusals of unknown kinds and plug-ins are covered, by P13',
 'P24': 'not built: FITS files of tabulated objects are a stateless input-output relation that a TLA+ model would only restate; masks are covered by P17',
 'P25': 'not built: addressable with probe classes as in P22 and P26, left for lack of time',
 'P28': 'not built: looking up tables is a pure function of its input, which a TLA+ model would only restate',
}
