"""Per property: the bounded harness that stands in where no contract reaches, and how it runs."""
def P(harness, np, bound, level='exploration', **k): return dict(harness=harness, np=np, bound=bound, level=level, **k)
G = 'random expansions (lmax up to about 24), orders, polarisation, workloads with poles, ties, empty processes; '
PROPS = {
 'C01': P('conv', [1, 2, 3, 4], G + 'row identity compared exactly, signals against the oracle', level='proof', seeds=2),
 'C02': P('conv', [1, 2, 3], G + 'one sample alone against the same sample among others', level='proof', seeds=2),
 'C03': P('conv', [1, 2, 3, 5], G + 'all process counts complete and lose no sample', level='proof', seeds=2),
 'C04': P('conv', [1], 'co-latitudes at, below and beyond the limits, infinities and NaN', level='proof', seeds=3),
 'C05': P('conv', [1], 'orders 1 to 12 at random offsets; polynomials up to the order', level='proof', seeds=3),
 'C06': P('conv', [1, 2], G + 'samples next to the poles and next to the seam in longitude', seeds=3),
 'C07': P('conv', [1, 2], G + 'values at grid nodes and between them against an independent evaluation of the integral', level='proof', seeds=2),
 'C08': P('conv', [1, 2], G + 'sums and multiples of expansions', level='proof', seeds=2),
 'C09': P('conv', [1, 2], G + 'calibration with and without normalised beams', level='proof', seeds=2),
 'C10': P('conv', [1], G + 'monopole and dipole removal on loaded expansions', level='proof', seeds=2),
 'C11': P('conv', [1, 2], 'FITS files with dropped and shuffled rows, with and without keywords, all requests up to and beyond the file', level='proof', seeds=2),
 'C12': P('conv', [1, 2], 'requests below, at and beyond the limits of both expansions', level='proof', seeds=2),
 'C13': P('conv', [1], 'accessors of polarised and unpolarised expansions, also after a second read', level='proof', seeds=2),
 'C14': P('capi', [1, 2], 'every function of the C interface with good and bad arguments and failing allocations against the C++ interface', level='proof', seeds=2),
 'C15': P('lev', [1], 'arrays of 0 to some hundred records with ties; bad keys and sizes', level='proof', seeds=3),
 'C16': P('lev', [1], 'all lengths to 130 and selected lengths to 1500, against a direct transform in extended precision', seeds=1),
 'C17': P('lev', [1], 'l up to some hundred, all sign combinations, angles from 0 to pi, random request sequences', level='proof', seeds=3),
 'C18': P('lev', [1], 'limits to 20000, all pairs and operations', level='proof', seeds=2),
 'C19': P('lev', [1], 'random operation sequences on arrays of 0 to 60 elements with a memory checker', level='proof', seeds=2),
 'C20': P('lev', [1], 'random and boundary arguments of every helper', level='proof', seeds=1),
 'C21': P('mpim', [1, 2, 3, 4], 'random counts and offsets for eight element types', level='proof', seeds=2),
 'C22': P('conv', [1, 2], 'one to sixteen threads, same workload', level='proof', seeds=1),
 'C23': P('conv', [1], 'widths from -120 to 240 arc minutes, lmax to 30', level='proof', seeds=2),
}
NA = {
 'C24': 'The Python layer is ctypes glue: no deductive verifier for Python is installed, and the guarantee lies in the agreement of two languages at run time, which a contract on either side cannot state.',
 'C25': 'It is a liveness property of several processes after one of them throws. The contracts are partial-correctness specifications of one process; the messages the other processes then wait for have no counterpart in them.',
 'C26': 'The obligations treat doubles as mathematical reals (no floating-point back end decides recursions of this length), so rounding cannot be expressed; the bounded harnesses use tolerances only.',
}
