"""Writes sim/props/meta.json (what the driver and the evidence need per property) and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
M = {}
SHIM = 'the kernel file interface below libc (open/read/write/seek/close/truncate/sync/rename of files in the scratch directory): real calls on real files through an interposer that decides lengths, errors and lost data'
CLOCK = 'time: counted in executed library source lines and file operations'
BASE = ['The library under test is imported from /repo as it is at the time of the check; no copy and no build product is used.',
        'numpy, h5py, pandas, ruamel.yaml, CPython and the kernel are trusted apart from the faults injected below them.',
        'A seed determines each case and schedule; a sample of cases is run twice per worker and compared (determinism_recheck).']


def m(pid, quick, thorough, rule, state, real, stub, extra=(), wall_quick=150, wall_thorough=780):
    M[pid] = dict(quick=quick, thorough=thorough, wall_quick=wall_quick, wall_thorough=wall_thorough, rule=rule, state=state, real=real, stub=stub,
                  level='exploration', assumptions=BASE + list(extra))


m('C01', 1200, 10**6, 'one evaluation = one save of one generated data set under one fault plan (or fault-free), its file decoded by an independent parser and compared; non-trivial = distinct by the measure below',
  'mode, shape of the data set, fault kinds that fired, outcome, and the sequence of intercepted operations with the ones that were cut or failed',
  ['rsbeams.rsdata.SDDS.writeSDDS', 'rsbeams.rsdata.utils', 'numpy', 'CPython file objects and buffering', 'libc stdio'], [SHIM, CLOCK],
  ['Faults are those of a disk that reports its errors: data lost after a successful close is outside the property.'])
m('C02', 1800, 10**6, 'one evaluation = one save request (valid, refused or with a failing open) within a history on up to three names, all files compared byte by byte afterwards',
  'kind of request, reason of refusal, mode, whether the target existed, outcome, recent history', ['rsbeams.rsdata.SDDS.writeSDDS', 'numpy', 'CPython file objects'], [SHIM, CLOCK])
m('C03', 3000, 10**6, 'one evaluation = one read of a file the library wrote itself, transfers split by the seam, everything compared with what was handed to the writer',
  'mode, buffering, column and parameter types and containers, fixed values, rows (0, 1, more), fault kinds fired',
  ['rsbeams.rsdata.SDDS.writeSDDS and readSDDS', 'rsbeams.rsdata.datatypes', 'rsbeams.rsdata.struct_data', 'numpy', 'CPython file objects'], [SHIM, CLOCK],
  ['Metadata are printable ASCII without double quotes, backslashes or a comma at the end; text values are not empty and contain no exclamation mark, quotes, line breaks or outer blanks.'])
m('C04', 2400, 10**6, 'one evaluation = one read (strategy, page selection, splitting of the transfers) of one generated multi-page file, compared with the values the independent encoder put into each page',
  'mode, row counts or not, buffering, types, page selection, fault kinds fired', ['rsbeams.rsdata.SDDS.readSDDS', 'rsbeams.rsdata.datatypes', 'rsbeams.rsdata.struct_data', 'numpy', 'CPython file objects'],
  [SHIM, CLOCK, 'the producer of the files: an independent SDDS encoder (sim/sddsref.py)'])
m('C05', 900, 10**6, 'one evaluation = one open-and-read of one generated file cut at one byte (sampled over all bytes, biased to page ends and header) or with one failing read operation',
  'mode, row counts or not, buffering, types, region of the cut, outcome', ['rsbeams.rsdata.SDDS.readSDDS', 'rsbeams.rsdata.utils', 'numpy', 'CPython file objects'],
  [SHIM, CLOCK, 'the crashed producer: an encoder whose output is cut (sim/sddsref.py, sim/torn.py)'],
  ['Termination means at most 3 million executed library lines and 200000 file operations for files of a few hundred values.'])
m('C06', 2500, 10**6, 'one evaluation = one read of a file a simulated producer appends to between the reader\'s file operations',
  'mode, row counts or not, buffering, outcome, the first intercepted operations with the producer\'s steps between them, types', ['rsbeams.rsdata.SDDS.readSDDS', 'numpy', 'CPython file objects'],
  [SHIM, CLOCK, 'the producer process: an encoder whose write calls are scheduled by the seed between the reader\'s operations'])
m('C07', 1300, 10**6, 'one evaluation = one import, export or failing request within a history over two registries; registries, objects and input files are compared with a reference model after each',
  'operation, format, name, fault, outcome, kinds fired, registry size', ['rsbeams.rsdata.switchyard', 'rsbeams.rsptcls.species', 'rsbeams.rsdata.SDDS', 'h5py and the HDF5 library', 'pandas'], [SHIM, CLOCK, 'producers of the input files: an independent elegant encoder and h5py'])
m('C08', 750, 10**6, 'one evaluation = one export under one fault plan (or fault-free), the file decoded independently and compared with the registered coordinates',
  'format, emptiness, fault kinds fired, outcome, sequence of intercepted operations', ['rsbeams.rsdata.switchyard', 'rsbeams.rsptcls.species', 'rsbeams.rsdata.SDDS.writeSDDS', 'pandas', 'numpy'], [SHIM, CLOCK],
  ['Faults are those of a disk that reports its errors.'])
m('C09', 16000, 10**6, 'one evaluation = one operation (resize, replace, write, read, refused request) within a history over several objects and names, some under faults or on damaged files, against a model of memory and disk',
  'operation, fault, outcome, kinds fired, array size class, number of possible disk contents', ['rsbeams.rsptcls.RsPhaseSpace6D', 'numpy.save/load', 'CPython file objects'], [SHIM, CLOCK])
m('C10', 1300, 10**6, 'one evaluation = one save or load of a generated beamline, fault-free or under a fault plan, compared with the described nesting',
  'save or load, fault, outcome, kinds fired; shape of the beamline', ['rsbeams.rslattice.Beamline', 'rsbeams.rslattice.Element', 'ruamel.yaml', 'CPython file objects'], [SHIM, CLOCK],
  ['Parameters are not called name or type; values are Python numbers, booleans and text.'])
m('C11', 16000, 10**6, 'one evaluation = one operation within an edit history, refused ones included, followed by a comparison of contents, order, sharing, lengths, edges and (of lines of drifts and quadrupoles) the transfer matrix with a reference model',
  'operation, name, target, outcome, recent sequence, number of elements', ['rsbeams.rslattice.Beamline', 'rsbeams.rslattice.Element'], [CLOCK, 'caller: alters the dictionaries and lists it handed over after each operation; refused requests are injected'])
m('C12', 1300, 10**6, 'one evaluation = one load of a generated lattice file, fault-free, with split reads, or with a failing open or read, compared with the elements the generator described',
  'format, fault, outcome, kinds fired, number of operations, number of elements', ['rsbeams.rslattice.lte_parser', 'rsbeams.rslattice.trace3d_parser', 'rsbeams.rslattice.templates.lattice_importer', 'rsbeams.rslattice.Beamline', 'CPython file objects'], [SHIM, CLOCK])
m('C13', 1500, 10**6, 'one evaluation = one operation within a history over several calculators; runs use a simulated pool with seeded worker count, schedule, stalls and failures; every turn is compared with the value computed alone and with an independent quadrature',
  'worker count, order, turns, failure, outcome, completion order', ['rsbeams.rsphysics.decoherence', 'scipy.integrate', 'dill (tasks and results are copied as between processes)'],
  ['process and thread pools of multiprocess, multiprocessing, pathos and concurrent.futures: SimPool/SimExecutor with virtual time', CLOCK],
  ['A worker process is modelled by copying function, arguments and results with dill; the death of a worker process (as opposed to an exception in it) is not modelled.'])
m('C14', 14000, 10**6, 'one evaluation = one setting, generation or interrupted generation within a history over bunches, random draws replaced by a recorded stream with injected extremes, invariants checked on every particle',
  'bunch type, distribution, particle number, quiet, number of draws, setting changes', ['rsbeams.rsptcls.bunch', 'numpy', 'scipy.optimize'], ['the random generators (random, numpy.random): seeded streams with injected 0, just-below-1, repeated and extreme values', CLOCK])
m('C15', 3500, 10**6, 'one evaluation = one construction or operation within a history over distributions and beams, with recorded random streams with injected extremes; exact moments recomputed independently',
  'kind, distribution, particle number, number of draws', ['rsbeams.rsptcls.RsDistrib6D', 'rsbeams.rsptcls.RsPtclBeam6D', 'rsbeams.rsptcls.RsPhaseSpace6D', 'rsbeams.rsptcls.RsTwiss2D', 'rsbeams.rsstats.stats6d', 'numpy'],
  ['the random generators: seeded streams with injected extremes', CLOCK])
m('C16', 7000, 10**6, 'one evaluation = one analysis or modification within a history over arrays and beams; bytes of all arrays compared after each, answers compared with an independent computation and with earlier answers',
  'operation, kind of array (dtype, memory order, content), size class, outcome', ['rsbeams.rsstats.stats6d', 'rsbeams.rsptcls.RsDistrib6D', 'rsbeams.rsptcls.RsPtclBeam6D', 'rsbeams.rsptcls.phases', 'numpy'], [CLOCK])
m('C17', 7000, 10**6, 'one evaluation = one sampling request within a history, draws recorded with injected extremes, values compared with the independently inverted distribution at the same draws',
  'method, inversion, density, counts, kinds of extremes', ['rsbeams.rsstats.sample', 'numpy', 'scipy'], ['the random generators: seeded streams with injected extremes', CLOCK])
m('C18', 3500, 10**6, 'one evaluation = one program of generation calls executed twice from the same generator state in two processes with different histories, clocks and operating-system entropy; arrays compared bit by bit',
  'calls of the program, histories', ['rsbeams.rsptcls.bunch', 'rsbeams.rsptcls.RsDistrib6D', 'rsbeams.rsptcls.RsPtclBeam6D', 'rsbeams.rsstats.sample', 'numpy.random and random (real generators)'],
  ['operating-system entropy (getrandom, /dev/urandom) and clocks: values drawn from the seed', CLOCK])
m('C19', 1400, 10**6, 'one evaluation = one concurrent execution of two to four tasks under one schedule; results, files and exceptions of every task compared with its solo execution in a process of its own',
  'the tasks and the exact list of context switches (task, line count, next task)',
  ['all of rsbeams used by the tasks: SDDS, switchyard, species, Beamline, Element, lattice parsers, RsPhaseSpace6D, RsPtclBeam6D, stats6d, kinematic, decoherence, sample, bunch', 'real threads, one of which runs at a time'],
  ['the thread scheduler: control passes only at library source lines chosen by the seed', 'process pools: SimPool', CLOCK],
  ['Preemption at source-line boundaries of library code, not between bytecodes of one line and not inside numpy or HDF5.', 'At most one task per case draws from the shared random generators.'])
m('C20', 10000, 10**6, 'one evaluation = one operation (call, failing print, interruption, new converter, caller changing a result) within a history over several converters; every result compared with that of a fresh converter in its own process and all earlier results compared again',
  'operation, quantity, unit systems, mass given or not, results outstanding', ['rsbeams.rsstats.kinematic'], ['standard output that fails', 'interruption at an arbitrary source line', CLOCK])
m('C21', 3000, 10**6, 'one evaluation = one operation (export, edit, refused or interrupted export, new writer) within a history over two writers and two files; the exported program is executed with a recording stand-in for Warp',
  'operation, fault, outcome, kinds fired, number of elements, number of file operations', ['rsbeams.rslattice.formatted_writer', 'rsbeams.rslattice.Beamline', 'CPython file objects'],
  [SHIM, CLOCK, 'sirepo.template.madx_converter._build_field_map (package not installed): same mapping built in sim/props/c21.py', 'warp: a module that records constructed elements'],
  ['Names of elements are distinct regardless of case and valid identifiers; the beamline is not empty.'])
m('C22', 40000, 10**6, 'one evaluation = one operation (setting, refused setting, generation, refused or interrupted generation, MAD-X output, array changed by the caller) within a history over one to three inserts; settings, arrays and element strings of all inserts compared with a reference model after each',
  'operation, preceding operations, number of slices, setting', ['rsbeams.rslattice.nonlinear', 'numpy'], ['refused settings, interruption of a generation at an arbitrary source line', CLOCK],
  ['Phase advances between 0.02 and 0.48; after an interrupted or refused generation only the settings and the next generation are judged.'])
m('C23', 350, 10**6, 'one evaluation = one plotting operation (plot, saved plot, plotter call, refused request, figure of the user) within a history over several data sets; the drawn values, the data, all other open figures and the saved file are inspected after each; saves run with injected storage faults',
  'operation, file format, fault, outcome, kinds fired, kind of source, plot style, number of open figures', ['rsbeams.rsplot.beam_plots', 'rsbeams.rsplot.util', 'rsbeams.rsplot.plot_ptcls', 'rsbeams.rsplot.RsScatterPS6D', 'rsbeams.rsdata.SDDS', 'matplotlib (Agg, SVG and PDF output)', 'Pillow'],
  [SHIM, 'interruption at an arbitrary source line', CLOCK, 'pyplot.show (no display): counts its calls'],
  ['What is drawn is read from the matplotlib objects; legibility of the rendered picture is not judged.', 'contour levels of scatter_contour are not judged.'])
m('C24', 3000, 10**6, 'one evaluation = one conversion (fault-free, under a fault plan, interrupted, with failing standard output, of a missing file or line) within a history over several lattices and two output files; the exported program is executed with a recording stand-in for Warp',
  'outcome, fault, kinds fired, number and kinds of elements, momentum given or not', ['rsbeams.pkcli.lattice', 'rsbeams.rslattice.templates.lattice_importer', 'rsbeams.rslattice.Beamline', 'rsbeams.rslattice.formatted_writer', 'rsbeams.rsstats.kinematic', 'pykern', 'CPython file objects'],
  [SHIM, CLOCK, 'sirepo.lib.Importer (package not installed): reads the model sirepo would make of the elegant files from a JSON file', 'standard output that fails', 'interruption at an arbitrary source line', 'warp: a module that records constructed elements'],
  ['Momenta between 0.05 and 1e5 MeV/c; bends have an angle; names of elements are distinct valid identifiers.'])

NOTE = {
 'C01': 'Every generated save is repeated with faults at sampled (in about half of the cases all) of its operations; nothing is proved for data sets, faults or schedules that were not drawn.',
}
NA = [
 ('N02', 'The meaning of a language is a pure function of the text, and the parser documents itself as partial. C12 decides the supported constructs (expressions, variables, repetition, nesting, quoting) and that others are understood or refused.'),
]
if __name__ == '__main__':
    assert sorted(M) == ['C%02d' % k for k in range(1, len(M) + 1)]
    for k, v in M.items():
        if not os.path.exists(os.path.join(ROOT, 'sim', 'props', k.lower() + '.py')):
            raise SystemExit('no module for ' + k)
    with open(os.path.join(ROOT, 'sim', 'props', 'meta.json'), 'w') as f:
        json.dump(M, f, indent=1)
    common = ('Seeded search over generated inputs, histories, schedules and fault sequences (quick about 40 s, thorough up to 13 min on 8 cores); a clean run is evidence, not proof. '
              'Failures are minimised and replay exactly from their file. Trusted: the interposer and simulator in sim/, the independent encoders and models, numpy and CPython. ')
    man = {'version': 1, 'setup_cmd': './check build',
           'checks': [{'property': k, 'quick_cmd': './check %s quick' % k, 'thorough_cmd': './check %s thorough' % k, 'technique': 'deterministic simulation with fault injection',
                       'level': v['level'], 'level_note': common + ' '.join(v['assumptions'][len(BASE):] + ([NOTE[k]] if k in NOTE else []))} for k, v in M.items()],
           'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
           'notes': 'No hooks in /repo: the seams are an LD_PRELOAD interposer around libc file calls, sys.monitoring line events, replaced pool classes and replaced random functions, all outside the repository.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
