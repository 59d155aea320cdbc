"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))
SD = 'rsbeams/rsdata/SDDS.py'
prop('C01', 'An acknowledged SDDS save is complete on disk; a failed one is reported',
 'When saving an SDDS file returns normally, the file holds the complete header and every parameter and column value that was handed in. If the storage fails at any point of the save (disk full, I/O error, interrupted or short transfer, failing open or close), the call either still produces that complete file or raises; it never returns normally over a missing, truncated or altered file.',
 ['fault_sequences', 'inputs', 'configurations'],
 'every write, flush, open and close operation of the save as the failing one, every error kind, short and interrupted transfers, both data modes, all data sizes from empty to many stdio buffers, followed by later saves of the same object.',
 'The tests only write tiny files to a healthy disk (and skip without the SDDS toolkit); no test makes a write fail.',
 [SD], [('save then close; exceptions propagate', SD + ': writeSDDS.save_sdds'), ('header emission', SD + ': writeSDDS._write_header')],
 ['bytes of the saved file', 'return or exception of the save call'])
prop('C02', 'A refused SDDS save leaves the existing file untouched',
 'When a save request is refused because its content cannot be represented (columns of different lengths, an unknown data mode, a value that does not fit the declared type) the caller gets an exception and whatever was stored under that file name before is still there, byte for byte. The same holds when the file cannot be opened, and the object remains usable: a following valid save succeeds completely.',
 ['histories', 'inputs', 'fault_sequences'],
 'every sequence of valid and invalid save requests to the same and different names, with open failures injected in between.',
 'No test saves twice to one name or makes an invalid request.',
 [SD], [('validate before truncating the target', SD + ': writeSDDS.save_sdds')],
 ['bytes of the target file before and after', 'exception of the save call'])
prop('C03', 'SDDS write-then-read returns exactly what was written',
 'Reading back a file produced by the SDDS writer returns the same parameter and column names in order, their metadata (type, units, symbol, description, format, fixed value) and exactly the same values for every supported type and mix of types, for any number of rows including zero and one. This holds in ASCII and binary mode, with buffered and unbuffered reading, and no matter how the operating system splits the transfers into short or interrupted reads and writes.',
 ['inputs', 'configurations', 'fault_sequences'],
 'all data sets of short, long and double columns and short, long, double and text parameters (non-empty text without line breaks, quotes, exclamation marks or leading/trailing blanks), fixed values, metadata (printable ASCII without double quotes, backslashes or a comma at the end), row counts, both modes, both read strategies, all splittings of the byte transfers.',
 'Writer tests need the external SDDS toolkit, use two double columns and two rows, and never read the file back with this library.',
 [SD, 'rsbeams/rsdata/datatypes.py', 'rsbeams/rsdata/struct_data.py', 'rsbeams/rsdata/utils.py'],
 [('typed binary and text encoding', SD + ': writeSDDS.save_sdds'), ('header parsing', 'rsbeams/rsdata/datatypes.py: Datum.parse_namelist'), ('data decoding', SD + ': readSDDS.read')],
 ['readSDDS columns, parameters and metadata accessors'])
prop('C04', 'Multi-page SDDS reading is independent of strategy, page choice and chunking',
 'Reading a well-formed multi-page SDDS file returns for every selected page exactly the parameters and column rows stored in that page, in order, and nothing from pages that were not selected; type, units, symbol, description, format and fixed value of every field are those of the header, however it is laid out. The result is the same for buffered and unbuffered reading, for any selection of existing page numbers, for equal, unequal, zero and large row counts, for binary, ASCII with row counts and ASCII without row counts, and for any splitting of the transfers by the operating system.',
 ['inputs', 'configurations', 'fault_sequences'],
 'all files built from supported numeric and text fields with any number of pages and rows per page, all page selections, both read strategies, all short/interrupted read patterns.',
 'The read tests use a few fixed files, almost always one page, all pages selected, and a healthy disk.',
 [SD, 'rsbeams/rsdata/struct_data.py', 'rsbeams/rsdata/utils.py'],
 [('page loop and position tracking', SD + ': readSDDS.read'), ('end-of-file test', SD + ': readSDDS._check_file_end'), ('per-page stacking', 'rsbeams/rsdata/struct_data.py: StructData.add/concat')],
 ['readSDDS.columns, readSDDS.parameters'])
prop('C05', 'A torn or unreadable SDDS file never hangs the reader or yields invented data',
 'Opening and reading an SDDS file that was cut off at any byte (a crashed or full producer), or whose reads fail part way, always terminates: it either raises or returns only values that are really stored in the file, in whole pages. Every page that is complete in the file is returned or the read raises. Data that is missing is never silently replaced, shifted between fields or reported as a complete page; in ASCII files only the last value at the very end of the file may come back with its own characters cut, and in ASCII files without row counts, where the end of a page is not recorded, the last page may come back with the rows that are there.',
 ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
 'every truncation point of every generated file, read errors at every read operation, both read strategies and page selections, with a step budget standing in for "terminates".',
 'All test files are complete and readable; a truncated header used to loop forever without any test noticing.',
 [SD, 'rsbeams/rsdata/utils.py'],
 [('end of input in the header', 'rsbeams/rsdata/utils.py: _read_line'), ('short data detection', SD + ': readSDDS._get_column_data/_get_parameter_data')],
 ['exception or returned pages', 'step budget'])
prop('C06', 'Reading an SDDS file while it is being appended yields whole pages only',
 'While another process appends pages to an SDDS file, a reader sees a prefix of the pages that producer writes: every page it returns is complete and correct and in order, and a page still being written either leads to an exception or is not reported (in ASCII files without row counts, where the end of a page is not recorded, the last page may come back with the rows written so far, and the last value at the very end may have its own characters cut). A read started after the producer has finished returns every page.',
 ['schedules', 'inputs', 'configurations'],
 'every interleaving of the producer\'s write calls with the reader\'s open, seek and read calls, every way the producer splits pages into writes, both read strategies and both modes.',
 'Tests never read a file that changes.',
 [SD], [('end-of-file test and page loop', SD + ': readSDDS.read'), ('snapshot in buffered mode', SD + ': readSDDS.__init__')],
 ['pages returned by the reader versus the producer\'s page list'])
SW = 'rsbeams/rsdata/switchyard.py'
prop('C07', 'The species registry survives any history of imports, exports and failures',
 'After any sequence of particle imports and exports, the registry holds under each name exactly the species of the first successful import under that name, with coordinates converted as documented from the file (elegant SDDS or OPAL step) to position, momentum over mc, path length and total momentum (an OPAL step\'s z and pz are taken over as they are). An import that fails (unknown format, missing or damaged file, read error) raises and leaves the registry unchanged, exports never alter a registered species, and an export without a species name uses the first registered species.',
 ['histories', 'fault_sequences', 'inputs'],
 'all sequences of imports (both formats, named and default, OPAL step selections), exports and failing operations, with read errors and truncation at any point of the import.',
 'The tests perform one import of one fixed file each on a healthy disk.',
 [SW, 'rsbeams/rsptcls/species.py'],
 [('first registration wins', SW + ': Switchyard._species_insert'), ('coordinate conversion', SW + ': read_elegant/read_opal'), ('writers work on copies', SW + ': Switchyard.write_*')],
 ['Switchyard.species', 'exceptions of read/write'])
prop('C08', 'Particle exports are complete and exact, or raise',
 'When exporting a species to elegant, OPAL or Genesis format returns normally, the file contains every macroparticle in order with the documented units and header (particle count, total charge, columns), and reading the numbers back gives the registered coordinates to full double precision. If storage fails at any point of the export the call raises or still leaves that complete file.',
 ['fault_sequences', 'inputs'],
 'every failing open/write/close operation and error kind, short and interrupted writes, all particle counts and coordinate magnitudes, all three formats.',
 'The tests check only that the exported file exists.',
 [SW], [('elegant export', SW + ': Switchyard.write_elegant'), ('OPAL export', SW + ': Switchyard.write_opal'), ('Genesis export', SW + ': Switchyard.write_genesis')],
 ['exported file content', 'return or exception'])
PS = 'rsbeams/rsptcls/RsPhaseSpace6D.py'
prop('C09', 'Phase-space files store and load all or nothing',
 'After a phase-space array is written successfully, reading it back (by the same or another object) gives bit-identical data and a matching particle count. A write that hits a storage failure raises, and a read of a missing, truncated, damaged or wrongly shaped file raises and leaves the object\'s array and particle count exactly as they were.',
 ['fault_sequences', 'crash_points', 'histories', 'inputs'],
 'every failing I/O operation and truncation point, every history of resize, replace, write and read operations on several objects and names, all array sizes and float values.',
 'One test writes and reads one array on a healthy disk.',
 [PS], [('array persistence', PS + ': write_array/read_array'), ('shape validation', PS + ': check_array')],
 ['get_array_6d, get_num_ptcls', 'exceptions'])
BL = 'rsbeams/rslattice/Beamline.py'
prop('C10', 'A saved beamline loads back identically, or the failure is reported',
 'Saving a beamline to YAML and loading it into an empty beamline gives the same elements with names, types and parameter values, in the same order and the same nesting of sub-lines. A save that hits a storage failure raises instead of silently leaving a partial file, a load whose reads fail raises and leaves the receiving beamline empty, and loading into a non-empty beamline changes nothing.',
 ['inputs', 'fault_sequences', 'histories'],
 'all beamlines built from nested sub-lines, repeated elements and numeric or text parameters (with names other than "name" and "type"); every failing I/O operation; short transfers; repeated save/load.',
 'There is no test of beamline saving or loading.',
 [BL], [('serialisation', BL + ': StructuredBeamline.save_beamline'), ('deserialisation', BL + ': StructuredBeamline.load_beamline')],
 ['get_beamline_elements and sequence nesting after load', 'exceptions'])
prop('C11', 'Beamline contents, length and positions follow every edit history',
 'After any sequence of adding elements, repeating elements by name, adding, repeating and filling sub-lines and editing parameters, the flattened element order is the depth-first order of the additions, the total length is the sum of the element lengths, and each element\'s upstream edge is the sum of the lengths before its first occurrence in the top-level line. Parameters are read, set and edited by name regardless of case, repeated names refer to one shared element, edits made by position or by name change exactly the addressed top-level elements, what a caller later does to the objects it handed over has no effect, and a refused operation leaves no trace. The transfer matrix of a line of drifts and quadrupoles is at any time the product of the matrices of its elements with their current parameters, and computing it changes nothing.',
 ['histories', 'inputs'],
 'all operation sequences over elements, nested and repeated sub-lines and edits, including rejected operations in between, checked after each step against a reference model.',
 'No test edits, nests or measures a beamline.',
 [BL, 'rsbeams/rslattice/Element.py'], [('insertion', BL + ': add_element/add_beamline'), ('traversal', BL + ': get_beamline_elements'), ('length and edge', BL + ': _get_length; rsbeams/rslattice/Element.py: _get_edge'), ('edits', BL + ': edit_element'), ('transfer matrix', BL + ': generate_matrix')],
 ['get_beamline_elements, length, Element.edge, Element.parameters'])
prop('C12', 'A lattice file is loaded completely or the load raises',
 'Loading a lattice (elegant LTE, Trace3D, TraceWin or Sirepo JSON) yields the same complete beamline, with the elements in the order of the line definitions, their types and parameters as defined (in the units of the library, with variables and expressions in reverse Polish notation evaluated) and lines used several times included each time, no matter how the operating system splits the reads. If opening or any read of the file fails, or the line or one of its elements is not defined, the load raises instead of returning a partial or empty beamline, and a later load of the same file on a healthy disk gives the complete beamline. Merging the dipole edges or the cavity gaps of a Trace3D beamline gives each dipole the angles, gap and integral of its own edges and each cavity its phase and the length of the drifts beside it, and alters nothing else.',
 ['fault_sequences', 'inputs', 'histories'],
 'every failing open/read operation and every short/interrupted read pattern during the load of generated lattices, followed by a retry.',
 'Only header importers and fixed small inputs are imported in tests; no lattice is parsed under a failing or slow disk.',
 ['rsbeams/rslattice/lte_parser.py', 'rsbeams/rslattice/trace3d_parser.py', 'rsbeams/rslattice/templates/lattice_importer.py'],
 [('file loading', 'rsbeams/rslattice/lte_parser.py: BeamlineParser.__init__'), ('file loading', 'rsbeams/rslattice/trace3d_parser.py: BeamlineParser.__init__'), ('JSON loading', 'rsbeams/rslattice/templates/lattice_importer.py: parse_json')],
 ['elements of the returned beamline', 'exceptions'])
DC = 'rsbeams/rsphysics/decoherence.py'
prop('C13', 'Decoherence turns come back in order for any worker count and schedule',
 'The centroid history has one value per turn, in turn order, and each value equals the one computed for that turn alone with the formula matching the order of the tune dependence, for every number of worker processes and every order in which workers take and finish tasks. A failure in a worker reaches the caller as an exception instead of a missing or misplaced value, the worker pool is released in either case, and the calculation leaves its own settings unchanged so that repeating it gives the same result.',
 ['schedules', 'configurations', 'fault_sequences', 'inputs'],
 'all worker counts, all schedules of task pick-up and completion, worker failures at any task, all turn counts and tune coefficients of order one and above, repeated calls.',
 'No test runs the decoherence calculation.',
 [DC], [('task distribution', DC + ': CentroidPosition.calculate_centroids'), ('per-turn integration', DC + ': integrate_*_order')],
 ['returned list', 'pool life cycle', 'exceptions'])
BU = 'rsbeams/rsptcls/bunch.py'
prop('C14', 'Generated bunches lie on their design shell for every random stream',
 'For every sequence of random numbers the generators may deliver, including extreme and repeated ones, bunch generation finishes and produces exactly the requested number of finite particles: KV particles lie on the shell of the total emittance, waterbag particles inside it, truncated-Gaussian particles within the cutoff, all measured with the bunch\'s own Twiss parameters of each plane. A linear Gaussian bunch is its normal draws times the rms sizes sqrt(emittance*beta) and sqrt(emittance*gamma) of each plane. With a quiet start the transverse centroid of a rejection-sampled bunch (particle number divisible by four) is zero. Particle identifiers stay 0 to n-1, the total emittance follows the emittances set, and sampling, even if interrupted, leaves the emittance settings unchanged.',
 ['inputs', 'schedules', 'histories', 'configurations'],
 'all random streams (seeded uniform and normal draws with injected boundary values 0, just below 1 and repeats), all bunch types and Twiss settings, sequences of setting parameters and regenerating.',
 'Bunch tests exercise a different module; no test checks an invariant, and random extremes practically never occur.',
 [BU], [('rejection sampling on the potential', BU + ': distribute_KV/distribute_waterbag/distribute_Gaussian'), ('quiet start', BU + ': exact_centroids'), ('Twiss setters', BU + ': set_transverse_coordinates')],
 ['StandardBunch.particles, NonlinearBunch.particles'])
RD = 'rsbeams/rsptcls/RsDistrib6D.py'
ST = 'rsbeams/rsstats/stats6d.py'
prop('C15', 'Cleaned 6D beams have exact moments for every random stream',
 'For every random stream, a generated uniform or Gaussian 6D distribution has the requested number of particles, zero mean, unit rms in every coordinate and no correlation between coordinates; before this clean-up the particles of a uniform distribution fill the unit ball of positions and of momenta, and no coordinate of a Gaussian distribution has a square beyond the requested max_rms_fac; the requested type and factor are reported. A beam built from Twiss parameters reproduces the requested alpha, beta and emittance in each plane to rounding accuracy, and offsetting or scaling one coordinate changes that coordinate only.',
 ['inputs', 'schedules', 'histories'],
 'all random streams with injected boundary draws, all particle numbers large enough to be non-degenerate, all Twiss parameters, sequences of offset/scale operations.',
 'Tests draw one stream and look at loose properties of one beam.',
 [RD, 'rsbeams/rsptcls/RsPtclBeam6D.py', ST],
 [('moment clean-up', RD + ': clean_phase_space_6d; ' + ST), ('Twiss matching', RD + ': make_twiss_dist_6d')],
 ['get_array_6d, calc_twiss6d'])
prop('C16', 'Analysing a beam never alters it',
 'Computing statistics of a beam (averages, variances, rms, extrema, correlations, Twiss parameters, peak current, phase advances, tunes) never changes the particle data, and gives the same answer however often and in whatever order the analyses are run. Only operations documented as modifying (mean removal, normalisation, decorrelation, offset, scaling) change the array, and each gives the outcome predicted from the data before it. The phase advance is the angle between two points in the direction asked for, the tune the strongest frequency of the interval of turns asked for.',
 ['histories', 'inputs'],
 'all interleavings of analysis and modification calls on beams and raw arrays of all sizes and contents.',
 'Tests run each statistic once on a throw-away array and do not compare the array afterwards.',
 [ST, RD, 'rsbeams/rsptcls/RsPtclBeam6D.py', 'rsbeams/rsptcls/phases.py'], [('single-pass variance', ST + ': calc_variance6d'), ('correlation matrix', ST + ': calc_correlations6d'), ('Twiss analysis', RD + ': calc_twiss6d')],
 ['array contents before and after', 'returned statistics'])
SA = 'rsbeams/rsstats/sample.py'
prop('C17', 'Sampling stays within bounds and on the distribution for every random stream',
 'For every random stream, including draws at the ends of the unit interval, sampling returns exactly the requested number of values as a flat array, all inside the requested interval, and each value is the inverse of the cumulative distribution at its draw to within the grid resolution. Halton sampling is deterministic: repeating it gives identical samples whatever the random generators have done in between.',
 ['inputs', 'schedules', 'histories'],
 'all random streams with injected boundary draws, all sample counts, intervals, grid sizes and positive densities, both inversion methods and both draw methods.',
 'No automated test covers sampling; the example script only plots.',
 [SA], [('inverse transform', SA + ': sample'), ('cumulative weights', SA + ': cdf_on_grid')],
 ['returned samples versus the recorded draws'])
prop('C18', 'Random generation is reproducible from the generator state or seed',
 'Starting from the same state of the public random generators, the same sequence of bunch, distribution, beam and sampling calls gives identical particles, whatever happened earlier in the process. A bunch constructed with an explicit seed and generated without other draws in between has identical particles every time, and constructing one without a seed does not disturb a generator the caller has seeded.',
 ['histories', 'schedules', 'configurations'],
 'all call histories before and between the generation calls, all seeds and generator states, all bunch types; operating-system entropy is varied adversarially between runs.',
 'No test repeats a generation from the same state.',
 [BU, RD, SA], [('seeding', BU + ': StandardBunch.__init__'), ('random draws', RD + ': make_unif_distrib/make_gauss_distrib; ' + SA + ': sample')],
 ['generated arrays of two runs'])
prop('C19', 'Independent objects do not influence each other under any interleaving',
 'Operations on independent objects (SDDS readers and writers on different files, switchyards, beamlines and lattice parsers, phase spaces and statistics, kinematic converters, decoherence calculators) executed concurrently in any interleaving give the same results, files and exceptions as when each is executed alone.',
 ['schedules', 'histories', 'inputs'],
 'all interleavings at source-line granularity of two to four tasks drawn from all parts of the library.',
 'The tests are sequential and mostly create one object.',
 [SD, SW, BL, 'rsbeams/rslattice/lte_parser.py', 'rsbeams/rsstats/kinematic.py', ST],
 [('per-instance state', SD + ': readSDDS.__init__/writeSDDS.__init__'), ('per-instance registries', SW + ': Switchyard.__init__; ' + BL + ': StructuredBeamline.__init__')],
 ['results and files of each task versus its solo run'])
KI = 'rsbeams/rsstats/kinematic.py'
prop('C20', 'A kinematic converter gives the same answer every time it is asked',
 'Calling one converter repeatedly, silently or not, gives the same values in the same units each time, equal to those of a freshly created converter with the same input and those of relativistic kinematics, with the units that are named beside them; what is printed are these values. Results handed out earlier are not changed by later calls or by later changes to another result, and other converters are not affected.',
 ['histories', 'configurations', 'inputs'],
 'all sequences of calls over several converters with every input quantity and every combination of input, output and mass units, including callers that modify the results they were given.',
 'The many kinematic tests create a new converter for each value and call it once.',
 [KI], [('evaluation', KI + ': Converter.__call__'), ('unit conversion', KI + ': Converter._unit_convert')],
 ['dictionaries returned by the converter'])
FW = 'rsbeams/rslattice/formatted_writer.py'
prop('C21', 'A Warp export contains the whole beamline every time, or raises',
 'Every export of a beamline that returns normally, the first one and each later one by the same or another writer to the same or another file, leaves a file that defines each distinct element of the beamline once, before the line, with its type and parameters (elements without Warp counterpart become drifts of their length), and whose line lists all elements in order. An export of an element that lacks a required parameter raises and leaves an existing file as it was. If the storage fails during the export, the call raises. Exporting never changes the beamline, and writers and files do not influence each other. Element names are valid identifiers, distinct regardless of case, and the beamline is not empty.',
 ['histories', 'fault_sequences', 'inputs'],
 'all nested beamlines, all histories of edits, successful, refused and interrupted exports over two writers and two files, every file operation of an export as the failing one.',
 'There is no test of the export; it was never run twice or against a failing disk.',
 [FW, BL], [('definitions before the line', FW + ': WarpWriter.write_file')], ['the exported program, executed with a recording stand-in for Warp', 'return or exception of the export'])
NI = 'rsbeams/rslattice/nonlinear.py'
prop('C22', 'A nonlinear insert always reflects its current settings',
 'After generating, the slice positions (centres of equal slices), beta functions (with the one at the entrance), strengths (knll) and apertures (cnll) of a nonlinear insert, and the MAD-X elements made from them (one per slice, in order), are those of the documented formulas for its current length, phase, t, c and number of slices, whatever was set, generated, refused or interrupted before. Every setting can be changed at any time and reads back as set; a negative c is refused with ValueError and changes nothing. Inserts do not influence each other, and arrays handed out earlier are not changed by later generations.',
 ['histories', 'inputs', 'configurations'],
 'all histories of settings, refused settings, generations, refused and interrupted generations and MAD-X output over several inserts.',
 'There are no tests of this module.',
 [NI], [('aperture check', NI + ': NonlinearInsert.c'), ('generation', NI + ': NonlinearInsert.generate_sequence'), ('element strings', NI + ': NonlinearInsert.create_madx')],
 ['s_vals, betas, knll, cnll', 'create_madx'])
BP = 'rsbeams/rsplot/beam_plots.py'
prop('C23', 'Plots show their data unaltered; a saved plot is complete or raises',
 'Every beam plot (phase space, longitudinal, projections, beamline profile, particle scatter and contour plots) draws the values of the selected page or array: densities and profiles count every particle once over the range of the data, curves and points have the stored values, magnets lie at their positions, labels carry the documented symbols and units, and the current follows the charge of the file or the given charge (normalised to one if there is none). Plotting, whether it succeeds, is refused, fails or is interrupted, never alters the data and never draws into, alters or closes another figure. A request to save a plot that returns normally leaves a complete image file; if the storage fails it raises, and a plotter keeps the plot so that it can be saved again.',
 ['histories', 'fault_sequences', 'inputs'],
 'all histories of plots over several files, pages and phase spaces with other figures open, every file operation of a save as the failing one, PNG, SVG and PDF output.',
 'The only plot test looks at the size of three files.',
 [BP, 'rsbeams/rsplot/util.py', 'rsbeams/rsplot/plot_ptcls.py', 'rsbeams/rsplot/RsScatterPS6D.py'], [('plot functions', BP), ('profiles and symbols', 'rsbeams/rsplot/util.py'), ('plotter figures', 'rsbeams/rsplot/RsScatterPS6D.py: plot_data6d/save_plots')],
 ['artists of the figures', 'the saved image', 'bytes of the data before and after', 'return or exception of the call'])
LC = 'rsbeams/pkcli/lattice.py'
prop('C24', 'An elegant-to-Warp conversion is complete and consistent, or raises',
 'When converting a line of an elegant lattice to Warp returns normally, the output file defines every distinct element of that line once and lists all elements in the order of the line, nested and reversed lines included, with their lengths, bending radii (length over angle) and field gradients: the normalised quadrupole or sextupole strength times the magnetic rigidity of the central momentum of that file, sign flipped. If the lattice cannot be opened or read completely, has no run_setup or no line of that name (in upper case), holds an element that cannot be converted, or the output cannot be written, the conversion raises; a refused conversion leaves the output as it was. Earlier conversions, also failed or interrupted ones, have no influence.',
 ['histories', 'fault_sequences', 'inputs'],
 'all lattices of the supported element types with nested, repeated and reversed lines, all momenta, all histories of conversions, every file operation as the failing one, failing standard output.',
 'The conversion is not tested at all.',
 [LC, 'rsbeams/rslattice/templates/lattice_importer.py', FW, KI], [('conversion', LC + ': elegant_to_warp'), ('strengths', LC + ': _parameter_conversions, _get_gradient')],
 ['the exported program, executed with a recording stand-in for Warp', 'return or exception of the call'])
prop('N02', 'Elegant lattice constructs beyond those the parser supports',
 'Every construct of the elegant lattice language is interpreted with the meaning elegant gives it.',
 ['inputs', 'programs'], 'all lattice texts.', 'No grammar coverage in tests.',
 ['rsbeams/rslattice/lte_parser.py'], [('parser', 'rsbeams/rslattice/lte_parser.py')], ['parsed beamline'])
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
