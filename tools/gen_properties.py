"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, pathlib
P = []
U = "castep_outputs/utilities/"; PP = "castep_outputs/parsers/"; BP = "castep_outputs/bin_parsers/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

prop("C01", "The way a file is handed over never changes what is parsed from it",
     "For every supported format, parsing the same content through a path string, a path object, an open handle (text for the text formats, binary for the binary formats), an in-memory stream, or the generic entry point (parser chosen by file extension, by name, or passed as a function) gives equal data. A format name accepted on the command line is accepted by the generic entry point. Unknown extensions and unknown parser names are refused with an error, never parsed with a wrong parser.",
     ["inputs", "configurations"], "every format x every hand-over form x every way of choosing the parser x small documents of that format",
     "Tests open one handle per format and call one entry point; the product of forms, formats and content is never taken.",
     [U + "utility.py", "castep_outputs/cli/castep_outputs_main.py", PP + "__init__.py", BP + "__init__.py"],
     [("path/handle dispatch", U + "utility.py:file_or_path"), ("generic entry", "castep_outputs/cli/castep_outputs_main.py:parse_single")],
     ["return value of parse_*_file and parse_single"])
prop("C02", "Parsers are re-entrant, keep no state between calls and leave inputs alone",
     "Parsing a document gives the same data whatever was parsed before it in the same process and whatever is being parsed at the same time in other threads, including when an earlier parse failed. Results handed out earlier never change afterwards, two results share no mutable data, and a handle passed by the caller is left open while a file the parser opened itself is closed.",
     ["schedules", "histories"], "every sequence of up to k parse calls over a set of documents, and every interleaving of two concurrent parses at line reads up to a preemption bound and at function entries with one preemption",
     "Tests call each parser once on fresh input; neither histories nor interleavings are exercised.",
     [PP + "castep_file_parser.py", U + "filewrapper.py", U + "utility.py", PP + "md_geom_file_parser.py", "castep_outputs/tools/md_geom_parser.py"],
     [("per-call accumulators", PP + "castep_file_parser.py:parse_castep_file"), ("line wrapper lifetime", U + "filewrapper.py:FileWrapper")],
     ["return values", "closed flag of the caller's handle"])
prop("C03", "Every output format decodes back to the same parsed data",
     "Dumping parsed data as JSON or YAML (each YAML engine) always produces a document that the standard loader for that format (for YAML, the loader of the engine that wrote it) reads back to the parsed data, with tuples as lists and, in JSON, composite keys as strings and complex numbers as real/imaginary pairs. Distinct keys stay distinct, no element is lost or reordered within a sequence, and the object being dumped is not modified.",
     ["inputs", "configurations"], "every nested value built from the scalar, key and container kinds parsers emit, up to a depth and width bound, times every output format",
     "Tests dump one flat dictionary per format; nesting of tuples, complex numbers and composite keys inside each other is not sampled.",
     [U + "dumpers.py", U + "utility.py", "castep_outputs/cli/castep_outputs_main.py"],
     [("format dumpers", U + "dumpers.py:SUPPORTED_FORMATS"), ("recursive conversion", U + "utility.py:normalise"), ("JSON safety", U + "utility.py:json_safe")],
     ["text written by the dumpers", "return value of parse_single per output format"])
prop("C04", "The command line reads exactly the requested files and emits one document",
     "For a seed name, the files read are exactly the existing files named seed.<format> of the formats selected by the include options (all formats when none is given), plus the seed's per-process error files when errors are selected, plus every file named explicitly, each through the parser of its own format. This holds for bare, relative, nested and absolute seeds (given after the options), several seeds, and seeds that are themselves files. One file gives its bare result, several give a mapping from file name to result, identical on screen and in a new output file.",
     ["configurations", "inputs"], "every subset of present files, include options, explicit files and seed spellings up to a bound",
     "There is no test of argument handling or of file discovery at all.",
     ["castep_outputs/cli/args.py", "castep_outputs/cli/castep_outputs_main.py"],
     [("seed expansion", "castep_outputs/cli/args.py:parse_args"), ("dump", "castep_outputs/cli/castep_outputs_main.py:parse_all")],
     ["standard output and output file of the command"])
prop("C05", "Line cursors: reading, rewinding and line numbers agree with the text",
     "After any sequence of read and rewind operations, the next line returned by a line cursor over a file or over an extracted block is the one a plain list-with-index model predicts: rewinding after a read returns that same line again, and the reported line number (of a cursor over a file, or over a block opened on its own lines) is the number of lines currently consumed, while within the text. Slicing, length, truth value, trimming and conversion of a block describe the same lines as iterating it.",
     ["histories", "inputs"], "every operation sequence up to a depth over every small text (empty, no trailing newline, blank lines, non-ASCII)",
     "Tests read and rewind along one or two fixed paths.",
     [U + "filewrapper.py"],
     [("position memory", U + "filewrapper.py:FileWrapper.rewind"), ("block cursor", U + "filewrapper.py:Block.__next__")],
     ["return values of next/rewind/lineno/len/bool/str/slices"],
     [("cursor position", "start offset of the last line / index", U + "filewrapper.py")])
prop("C06", "Block extraction takes exactly the delimited lines and reports early end of file",
     "A block opened on a matching line contains that line, every following line up to and including the n-th line matching the end condition, and nothing else; reading continues directly after it. A non-matching line opens nothing and consumes nothing. If the text ends first the caller gets an error unless it said the end of file is acceptable, in which case it gets all the remaining lines.",
     ["inputs", "histories"], "every line sequence over a small alphabet up to a length, every n, every start position, over plain streams, line cursors and blocks as sources",
     "Tests extract two or three hand-written blocks.",
     [U + "filewrapper.py", U + "utility.py"],
     [("regex block", U + "filewrapper.py:Block.from_re"), ("counted block", U + "filewrapper.py:Block.get_lines"), ("comment stripping", U + "utility.py:strip_comments")],
     ["lines of the returned block", "next line of the source", "raised errors"])
prop("C07", "Binary record reader: any navigation history reads the records actually stored",
     "For any sequence of next, skip, rewind and typed read operations on an unformatted record file, every returned record equals the stored record at the position an index model predicts, typed reads decode exactly that record's bytes, and iteration visits each record once. Running off either end is signalled and never yields bytes that are not a record.",
     ["histories", "inputs"], "every operation sequence up to a depth over every small record file (no records, empty records, several lengths)",
     "Tests follow a handful of navigation paths on one file.",
     [BP + "fortran_bin_parser.py", U + "type_conv.py"],
     [("record navigation", BP + "fortran_bin_parser.py:FortranBinaryReader"), ("byte decoding", U + "type_conv.py:parse_bytes")],
     ["return values of reader operations"])
prop("C08", "Lazy trajectory access agrees with eager parsing for every access history",
     "For any sequence of indexing, slicing, iteration, length, reset and skip operations on a lazily read trajectory, every frame returned equals the frame at that position in the eager parse of the same file, whatever was accessed before and whatever other readers of the same file are doing. Negative, stepped and reversed slices follow list semantics and out-of-range access raises an index error.",
     ["histories", "inputs"], "every operation sequence up to a depth over trajectories of several lengths and line-ending/separator styles, and two interleaved readers",
     "Tests access a few positions of one trajectory from a fresh reader.",
     ["castep_outputs/tools/md_geom_parser.py", PP + "md_geom_file_parser.py"],
     [("frame seeking", "castep_outputs/tools/md_geom_parser.py:MDGeomParser")],
     ["frames returned"], [("next frame", "frame the cursor stands at", "castep_outputs/tools/md_geom_parser.py")])
prop("C09", "Trajectory (.md/.geom) files are recovered frame by frame and atom by atom",
     "Every frame of a molecular-dynamics or geometry trajectory appears once and in order, with its time or step label, energies, temperature, pressure, cell, cell velocities, stress and, for every atom under its own species and number, position, velocity and force exactly as written. Optional sections that are absent stay absent and no value leaks from one frame into another.",
     ["inputs"], "every trajectory shape (frames x optional sections x species/atom numbering x separator style) within bounds with every number spelling of the alphabet",
     "Tests parse one .md and one .geom sample.",
     [PP + "md_geom_file_parser.py", PP + "parse_utilities.py"],
     [("frame parser", PP + "md_geom_file_parser.py:parse_md_geom_frame")],
     ["parse_md_geom_file"])
prop("C10", "Band-structure (.bands) files are recovered k-point by k-point and spin by spin",
     "For every .bands file the electron and band counts, Fermi energies, cell and, for every k-point in file order, its coordinates, weight and the full list of eigenvalues of each spin channel are returned exactly as written. Eigenvalues of one spin or k-point never appear under another.",
     ["inputs"], "every combination of spin components, k-point and band counts and number spellings within bounds",
     "Tests parse one non-spin-polarised sample.",
     [PP + "bands_file_parser.py", PP + "parse_utilities.py"],
     [("bands parser", PP + "bands_file_parser.py:parse_bands_file")], ["parse_bands_file"])
prop("C11", "Phonon and phonon-DOS files are recovered q-point by q-point and mode by mode",
     "For every .phonon and .phonon_dos file the header (counts, units, cell, ions with species, position and mass) and, for each q-point in order including split directions, every mode's frequency, optional infrared and Raman activity and optional eigenvectors, and every density-of-states row with its per-species parts are returned exactly as written.",
     ["inputs"], "every combination of ion/branch/q-point counts and optional columns within bounds with every number spelling",
     "Tests parse one sample of each.",
     [PP + "phonon_file_parser.py", PP + "phonon_dos_file_parser.py"],
     [("phonon parser", PP + "phonon_file_parser.py:parse_phonon_file"), ("dos parser", PP + "phonon_dos_file_parser.py:parse_phonon_dos_file")],
     ["parse_phonon_file", "parse_phonon_dos_file"])
prop("C12", "Elastic, field-response, Hugoniot and transition-state tables keep every number",
     "For every .elastic, .efield, .hug and .ts file, each tensor component, oscillator, frequency row, table row and path point is returned under the right heading and index, in order and with the value written. Sections may be repeated or absent without affecting others.",
     ["inputs"], "every section subset, row count and number spelling within bounds",
     "Tests parse one sample of each.",
     [PP + "elastic_file_parser.py", PP + "efield_file_parser.py", PP + "hug_file_parser.py", PP + "ts_file_parser.py"],
     [("table parsers", PP + "efield_file_parser.py:parse_efield_file"), ("ts parser", PP + "ts_file_parser.py:parse_ts_file")],
     ["parse_elastic_file", "parse_efield_file", "parse_hug_file", "parse_ts_file"])
prop("C13", "Formatted grid and structure-factor files keep every point and value",
     "For every formatted density, potential, electron-localisation, charge-difference and X-ray structure-factor file, every row is returned once, in file order, with its grid indices and with each of its columns (one or two spin channels, or the real and imaginary part of each structure factor) under the name given in the heading and with the value written.",
     ["inputs"], "every spin count, grid size and number spelling within bounds, for each of the formats",
     "Tests parse one sample of each format.",
     [PP + "parse_fmt_files.py", PP + "xrd_sf_file_parser.py"],
     [("grid parser", PP + "parse_fmt_files.py:_parse_kpt_info"), ("xrd parser", PP + "xrd_sf_file_parser.py:parse_xrd_sf_file")],
     ["parse_den_fmt_file", "parse_pot_fmt_file", "parse_elf_fmt_file", "parse_chdiff_fmt_file", "parse_xrd_sf_file"])
prop("C14", "Magnetic-resonance (.magres) files are recovered tensor by tensor",
     "For every .magres file the calculation settings, units, lattice, atom positions and, for every atom or atom pair, each shielding, electric-field-gradient and coupling tensor, and the principal values and axes of the older listing, are returned under the right atom labels with the nine components in the order written. Section order and absent sections do not matter.",
     ["inputs"], "every subset and order of sections, atom numbering (including numbers that run into the species name) and number spelling within bounds",
     "Tests parse one sample.",
     [PP + "magres_file_parser.py"], [("magres parser", PP + "magres_file_parser.py:parse_magres_file")], ["parse_magres_file"])
prop("C15", "TDDFT, error and electron-phonon text files keep every entry",
     "For every .tddft, .err and .epme file each spectrum row, excitation overlap, error message with its call stack, and q-point/k-point coupling block is returned once, in order, under the right identifier and with the values written.",
     ["inputs"], "every section, row, process, spin and band count within bounds with every number spelling",
     "Tests parse one sample of each.",
     [PP + "tddft_file_parser.py", PP + "err_file_parser.py", PP + "epme_file_parser.py"],
     [("tddft parser", PP + "tddft_file_parser.py:parse_tddft_file"), ("epme parser", PP + "epme_file_parser.py:parse_epme_file")],
     ["parse_tddft_file", "parse_err_file", "parse_epme_file"])
prop("C16", "Binary potential and electron-phonon files decode to the stored arrays",
     "For every binary electrostatic-potential and electron-phonon-matrix-element file, the header values, cell, and every array element are returned with the stored value, at the stored grid or band index and (for electron-phonon files) under the right spin, k-point and mode, in big-endian double/integer representation without loss.",
     ["inputs"], "every combination of grid, spin, band, k-point, q-point and mode counts within bounds with bit-pattern alphabets (negative, zero, denormal, huge)",
     "Tests parse one sample of each.",
     [BP + "cst_esp_file_parser.py", BP + "epme_bin_parser.py"],
     [("esp parser", BP + "cst_esp_file_parser.py:parse_cst_esp_file"), ("epme parser", BP + "epme_bin_parser.py:parse_epme_bin_file")],
     ["parse_cst_esp_file", "parse_epme_bin_file"])
prop("C17", "Input-file keywords: value, type and unit survive every legal spelling",
     "Each keyword of a .cell or .param file is returned once with the value, type (logical, integer, real, vector, text) and unit its text denotes, whatever separator (colon, equals, blank), key capitalisation, spacing, blank lines or comment style is used. Fortran real spellings (signs, leading point, D exponents) and fractions denote their numeric value, and text that merely begins like a number stays text.",
     ["inputs"], "every spelling of a keyword line built from the separator, case, spacing, comment, number and unit alphabets",
     "Tests parse a few hand-written lines; spelling combinations multiply.",
     [PP + "cell_param_file_parser.py", U + "type_conv.py"],
     [("line parser", PP + "cell_param_file_parser.py:parse_cell_param_file"), ("typing", U + "type_conv.py:determine_type")],
     ["parse_cell_file", "parse_param_file"])
prop("C18", "Input-file blocks are recovered entry by entry in any order and spelling",
     "Each block of a .cell or .param file (lattice, positions with their optional attributes, k-point and phonon lists, symmetry, constraints, species tables, Hubbard and coupling tables, mixtures, pressure and development options) is returned with its declared or default unit and every row in order with the values and labels written. The order of blocks and keywords, comments, blank lines and key capitalisation do not affect the result, and a block the text ends in is an error rather than silent loss.",
     ["inputs"], "every block kind x row count x optional attribute subset x unit x ordering within bounds",
     "Tests parse one or two samples of each block.",
     [PP + "cell_param_file_parser.py"],
     [("block dispatch", PP + "cell_param_file_parser.py:parse_cell_param_file")], ["parse_cell_file", "parse_param_file"])
prop("C19", "Pseudopotential strings decode to every field they contain",
     "Every on-the-fly pseudopotential string, library name or file name given for a species is decoded into its parts: core and cut-off radii, plane-wave limits, each projector with orbital, shell, type and optional energy or occupation, and options, with the numbers written. Absent optional parts are reported as absent, and projectors keep their order.",
     ["inputs"], "every derivation of the pseudopotential string grammar up to a number of projectors and options, in input files and in output reports",
     "Tests use about five strings.",
     [PP + "cell_param_file_parser.py", PP + "castep_file_parser.py", U + "castep_res.py"],
     [("string grammar", U + "castep_res.py:PSPOT_RE"), ("decoder", PP + "cell_param_file_parser.py:_parse_pspot_string")],
     ["parse_cell_file", "parse_castep_file"])
prop("C20", "A main output file is split into its runs, each parsed as if it stood alone",
     "Parsing an output file that contains several calculation runs appended to one another gives exactly the list of the results of parsing each run separately, in order. Nothing from one run appears in another and no run is lost or duplicated, whatever each run contains.",
     ["inputs", "histories"], "every sequence of up to k runs drawn from a set of run bodies covering every section kind",
     "Tests parse single-run files or check only the number of runs.",
     [PP + "castep_file_parser.py"], [("run start", PP + "castep_file_parser.py:parse_castep_file")], ["parse_castep_file"],
     [("current run", "accumulator replaced at each run header", PP + "castep_file_parser.py:parse_castep_file")])
prop("C21", "Filters only select: filtered data equals the matching part of the full data",
     "Parsing a main output file with a filter returns, for every kind of section the filter asks for, exactly what parsing with everything selected returns for it, and nothing for the kinds not asked for (selecting the iterated steps of a run brings the steps with their usual contents). Adding kinds to a filter never changes or removes data, so a combination of filters yields the union of what each yields.",
     ["configurations", "inputs"], "every single filter kind and every pair of kinds, for every section kind and ordered pair of adjacent sections",
     "Tests compare two preset filters on one file.",
     [PP + "castep_file_parser.py"], [("filter flags", PP + "castep_file_parser.py:Filters")], ["parse_castep_file(filters=...)"])
prop("C22", "Sections of a main output file are parsed independently of their neighbours",
     "Each section of a main output file yields the same data wherever it stands: placing two sections one after the other, in either order and with or without unrelated text or blank lines between them, gives the union of what each gives alone. Unrecognised text never removes or alters recognised data.",
     ["inputs"], "every ordered pair (deeper: triple) of section samples x separators",
     "Tests parse each section on its own, or in the single order of three sample files.",
     [PP + "castep_file_parser.py", U + "filewrapper.py"],
     [("section end detection", U + "filewrapper.py:Block.from_re"), ("rewind", U + "filewrapper.py:FileWrapper.rewind")], ["parse_castep_file"])
prop("C23", "A truncated output never yields data that the complete output would not",
     "If an output file is cut after any line, as happens when a calculation is killed, parsing it either reports an error or returns data every part of which also appears, with the same value or as a leading part of a sequence or text, in the parse of the complete file. Runs completed before the cut are returned unchanged, and parsing always terminates.",
     ["crash_points", "inputs"], "every cut point between lines of a set of documents of every text format, and between bytes of the binary formats",
     "No test parses a truncated file.",
     [PP + "castep_file_parser.py", U + "filewrapper.py", PP + "md_geom_file_parser.py"],
     [("end-of-file detection", U + "filewrapper.py:Block.from_re")], ["every parse_*_file"])
prop("C24", "Iterated calculations: each step's data lands in that step, in order",
     "In an output of a molecular-dynamics or geometry-optimisation run, the returned list of steps has one entry per step in file order, each holding exactly the energies, positions, forces, stresses, cell, populations and minimiser data printed within that step. Data printed before the first step or after the last belongs to the run (in a geometry optimisation, what is calculated before the first printed iteration forms the entry of the starting configuration), and the final configuration is reported separately.",
     ["inputs", "histories"], "every run of up to k steps x the sections each step prints x minimiser kinds",
     "Tests check two sample trajectories' step counts and selected values.",
     [PP + "castep_file_parser.py"], [("step accumulation", PP + "castep_file_parser.py:parse_castep_file")], ["parse_castep_file"])
prop("C25", "Energies and convergence tables in a main output are complete and exact",
     "Every SCF cycle with its energy, Fermi energy, gain, time and contributions, every final energy variant (free energy, zero-temperature estimate, dispersion- and solvation-corrected, enthalpies), spin and Fermi-level summaries and minimiser progress lines are returned once, in order, under the key for that quantity and with the value and sign written.",
     ["inputs"], "every cycle count, energy-variant subset and number spelling within bounds, for each solver style",
     "Tests parse one sample per table.",
     [PP + "castep_file_parser.py", U + "castep_res.py"], [("scf", PP + "castep_file_parser.py:_process_scf"), ("energies", PP + "castep_file_parser.py:parse_castep_file")], ["parse_castep_file"])
prop("C26", "The run set-up report (title, parameters, cell, species) is returned exactly",
     "Build information, title, every reported parameter group with its keys, values and units, the unit cell, atomic positions, species masses, quadrupole moments, pseudopotential reports, symmetry operations, constraints, k-points and memory estimate of a run are returned under the right heading with the values written.",
     ["inputs"], "every atom/species/constraint/k-point count and label style and number spelling within bounds",
     "Tests parse one sample per section.",
     [PP + "castep_file_parser.py"], [("cell report", PP + "castep_file_parser.py:_process_unit_cell"), ("params", PP + "castep_file_parser.py:_process_params")], ["parse_castep_file"])
prop("C27", "Forces, stresses and their variants are returned per atom and per component",
     "Every force and stress table of a main output is returned under its own variant name, with one entry per atom under its species and number (custom labels included), all components in order with the sign and value written, whatever constraint markers are printed, and with repeated tables kept in order.",
     ["inputs"], "every variant x atom count/label x constraint marker x number spelling within bounds, repeated up to k times",
     "Tests parse one sample per variant.",
     [PP + "castep_file_parser.py", U + "castep_res.py"], [("forces", PP + "castep_file_parser.py:_process_forces"), ("stress", PP + "castep_file_parser.py:_process_stresses")], ["parse_castep_file"])
prop("C28", "Population, spin, bond and charge analyses are returned per atom and per orbital",
     "Mulliken (with and without spin, orbital and total rows), orbital populations, bonds, Hirshfeld charges and ESP-type charges are returned for every atom or atom pair printed, under its label, with each column's value as written.",
     ["inputs"], "every atom/bond count, label, spin and printed-column combination with number spellings within bounds",
     "Tests parse one sample per analysis.",
     [PP + "castep_file_parser.py"], [("mulliken", PP + "castep_file_parser.py:_process_mulliken"), ("bonds", PP + "castep_file_parser.py:_process_bond_analysis")], ["parse_castep_file"])
prop("C29", "Lattice-dynamics and linear-response tables of a main output are exact",
     "Vibrational modes per q-point with their symmetry, infrared and Raman data, character tables, thermodynamics tables, dynamical matrices, Born charges, permittivity, polarisability, oscillator strengths, Raman tensors and elastic constants are returned for every row, atom, mode and component printed, with the value and sign written.",
     ["inputs"], "every row, q-point, mode, atom and optional-column count with number spellings within bounds",
     "Tests parse one sample per table.",
     [PP + "castep_file_parser.py"], [("phonon", PP + "castep_file_parser.py:_process_qdata"), ("thermo", PP + "castep_file_parser.py:_process_thermodynamics")], ["parse_castep_file"])
prop("C30", "Spectroscopy and electronic-structure tables of a main output are exact",
     "Magnetic-resonance tables, TDDFT excitations, band eigenvalues per k-point and spin, delta-SCF, molecular-dynamics summaries and similar result tables are returned for every row printed under the right label, with the values written.",
     ["inputs"], "every row count and optional-column combination with number spellings within bounds",
     "Tests parse one sample per table.",
     [PP + "castep_file_parser.py"], [("magres", PP + "castep_file_parser.py:_process_magres_block"), ("tddft", PP + "castep_file_parser.py:_process_tddft")], ["parse_castep_file"])
prop("C31", "Pair-potential reports are returned per potential, species and parameter",
     "For each pair potential reported in a main output, every parameter value is returned under the potential's name and type, and the species tuple it belongs to, exactly as written; several potentials, species groups and two- and three-body terms may be mixed freely.",
     ["inputs"], "every list of up to k potentials x types x species tuples x parameter values",
     "Tests parse two samples.",
     [PP + "castep_file_parser.py"], [("pair params", PP + "castep_file_parser.py:_process_pair_params")], ["parse_castep_file"])
prop("C32", "Predicted output files follow the documented rules for every input combination",
     "For every combination of task, method and output-control parameters and cell, the predicted list of files contains a file exactly when the documented rule for that file is satisfied by the given values or their defaults (on-the-fly potentials taken to be ultrasoft), under the given seed name, without duplicates and in a deterministic order. Keyword values are compared case-insensitively and the given parameters are not modified.",
     ["configurations"], "every assignment to the parameters the rules mention, all at once where few and pairwise (deeper: three at a time) across groups",
     "Tests check about a dozen combinations.",
     ["castep_outputs/tools/get_generated_files.py"], [("rules", "castep_outputs/tools/get_generated_files.py:get_generated_files")], ["get_generated_files"])
prop("C33", "Number tokens denote their written value",
     "Every number CASTEP can print, with any sign, width, leading or trailing point, zero or exponent spelling, also when adjacent columns of numbers run together at a sign, is converted to the nearest double (or exact integer) of the text; logical tokens, fractions, vectors, labelled values and mappings convert element by element, and text that is not a number is never silently turned into one.",
     ["inputs"], "every token derivable from the number grammar up to a length and every pair of adjacent tokens",
     "Tests check a few literals per helper.",
     [U + "castep_res.py", U + "type_conv.py"], [("number regexes", U + "castep_res.py:get_numbers"), ("conversion", U + "type_conv.py:to_type")],
     ["get_numbers", "to_type", "determine_type", "parse_int_or_float"])
prop("C34", "Data-shaping helpers preserve every value",
     "Flattening a nested result gives one entry per leaf under its unique path, stacking a list of records and aliasing or normalising keys keeps every value, atom labels split into species (with any tag) and number and back without loss, and none of these change their input unless documented to.",
     ["inputs"], "every nested structure over a small key and leaf alphabet up to depth and width bounds, and every atom label of the label alphabet",
     "Tests check one or two structures per helper.",
     [U + "utility.py", "castep_outputs/processing/processing.py"],
     [("flatten", U + "utility.py:flatten_dict"), ("stack", U + "utility.py:stack_dict"), ("labels", U + "utility.py:atreg_to_index")],
     ["helper return values"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
