#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
K = 'klayout_pex/'


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [])))


SLOW = ("the tests that run the engines need KLayout, Magic and the field solvers and do not pass here; "
        "the passing tests never reach this code. ")

p('C01', 'A failing external tool is never taken for a success',
  "Whenever a field solver, Magic or netlistsvg ends with a non-zero exit status, the call that started it raises; "
  "it never returns normally. The status that is tested is read only after the tool has ended.",
  ['fault_sequences', 'configurations'], 'every exit status of every external tool, under every engine',
  SLOW + 'A test would sample one status of one tool.',
  [K + 'fastercap/fastercap_runner.py', K + 'fastcap/fastcap_runner.py', K + 'magic/magic_runner.py',
   K + 'netlistsvg/netlistsvg_runner.py'],
  [('wait() then returncode test then raise', K + '*/..._runner.py run_*')], ['exit status of kpex', 'exceptions'])

p('C02', 'Everything an external tool prints ends up in its log file',
  "Each external tool is started without a shell, from an argument vector whose first element is the configured "
  "executable, with no terminal input, and with its error stream merged into its output stream. Every line it prints is "
  "written to the log file that the caller named, before the run is judged.",
  ['inputs', 'fault_sequences'], 'every output of every tool, every executable path and argument (spaces and shell metacharacters included)',
  SLOW + 'A test would sample one output.',
  [K + 'fastercap/fastercap_runner.py', K + 'fastcap/fastcap_runner.py', K + 'magic/magic_runner.py',
   K + 'netlistsvg/netlistsvg_runner.py', K + 'klayout/lvs_runner.py'],
  [('subprocess.Popen + line loop', 'run_* / LVSRunner')], ['<tool log file>'])

p('C03', 'Solver options given on the command line reach the solver',
  "Each documented option of FasterCap, FastCap and Magic, when given, appears in that tool's argument vector or script "
  "with the flag the tool documents for it and with the user's value, and an on/off option adds its flag exactly when "
  "it is on. No option is dropped, swapped with another one or sent to the wrong tool.",
  ['configurations', 'inputs'], 'every combination of option values',
  'there is no test of the command line interface or of the argument vectors.',
  [K + 'kpex_cli.py', K + 'fastercap/fastercap_runner.py', K + 'fastcap/fastcap_runner.py', K + 'magic/magic_runner.py'],
  [('argparse dest -> run_* parameter -> argv', K + 'kpex_cli.py')], ['argv of the tools'])

p('C04', 'Invalid arguments stop the program before any extraction',
  "Every problem that the argument validation reports as an error makes the validation fail, and a failed validation "
  "ends the program with a non-zero status before an engine, the LVS run or a tech file is touched. A successful "
  "validation leaves every derived setting defined. It fails for a KLayout executable, technology file, LVS script, layout, "
  "LVS database or schematic that does not exist, for a chosen cell that is not in the layout or several top cells without "
  "a choice, without an engine, for Magic without a layout, without any input, for an unknown log level and for a "
  "malformed dielectric filter.",
  ['configurations', 'inputs'], 'every combination of missing, contradictory or malformed arguments',
  'there is no test of the argument validation; the combinations are exponential.',
  [K + 'kpex_cli.py'], [('found_errors flag / ArgumentValidationError / sys.exit', K + 'kpex_cli.py validate_args, setup_logging')],
  ['exit status', 'stderr'])

p('C05', 'Exactly the selected engines run, after what they depend on',
  "An engine (Magic, FasterCap, FastCap, 2.5D) runs if and only if it was selected. The engines that work on the LVS "
  "database run only after it has been loaded and the extraction context has been prepared from it, and not at all when no "
  "layer was found; Magic alone needs neither.",
  ['configurations', 'inputs'], 'every combination of selected engines, layouts with and without known layers',
  SLOW, [K + 'kpex_cli.py'], [('main()', K + 'kpex_cli.py')], ['which engines start', 'exit status'])

p('C06', 'A cached LVS database is used only when it is fresh, and it is the one read',
  "A cached LVS database is used only if caching is enabled, the file exists and the layout file is not newer than it; "
  "otherwise LVS runs. The database handed to the extraction is the cached one on a hit and the newly written one on a "
  "miss, and a new one is stored in the cache.",
  ['histories', 'configurations'], 'every history of layout edits, previous runs, output and cache directories',
  SLOW + 'Needs several runs with different directories and file times.',
  [K + 'kpex_cli.py'], [('create_lvsdb', K + 'kpex_cli.py')], ['the LVS database that is extracted'])

p('C07', 'Output stays inside the run\'s output directory',
  "Every file or directory that a kpex run creates lies under the run's output directory (itself under the directory the "
  "user chose), except for the LVS cache, which lies under the cache directory. No two outputs share a file. The user's layout and schematic are only "
  "read.",
  ['inputs', 'configurations'], 'every cell name, every option combination',
  SLOW, [K + 'kpex_cli.py'], [('output_dir_path', K + 'kpex_cli.py')], ['files created'])

p('C08', 'Each stage of a field-solver run consumes what the previous stage produced',
  "In a FasterCap or FastCap run, the solver gets the input file generated by this run, the capacitance matrix is parsed "
  "from the log file of this solver run, and the symmetrised matrix of this run is what is written as CSV and expanded "
  "into the netlist; the reduced netlist, its CSV and its SPICE file all come from the expanded netlist. The working directory of the process is never changed; FastCap runs in that of its list file.",
  ['configurations', 'histories'], 'every run, with stale files of earlier runs in the output directory',
  SLOW, [K + 'kpex_cli.py'], [('run_fastercap_extraction, run_fastcap_extraction', K + 'kpex_cli.py')], ['result files'])

p('C09', 'The 2.5D result table contains every extracted parasitic exactly once',
  "The CSV table of the 2.5D engine has one row for each net pair of the summed capacitances and one for each of the "
  "resistances, carrying the two nets and the value in the column whose unit the header names. Device "
  "names within the table are distinct.",
  ['inputs'], 'every layout and every extraction mode', SLOW, [K + 'kpex_cli.py'],
  [('run_kpex_2_5d_engine', K + 'kpex_cli.py')], ['<cell>_k25d_pex_netlist.csv'])

p('C10', 'Capacitance matrices survive storage and symmetrisation',
  "Writing a capacitance matrix and parsing it back uses one separator and one layout (header of net names, one row of "
  "values per conductor). Symmetrising returns a new matrix, leaves the original untouched, keeps the diagonal, and puts the mean of the two "
  "mirrored entries at both positions for every pair.",
  ['inputs'], 'every matrix size and content', 'two 2x2/3x3 samples are tested.',
  [K + 'common/capacitance_matrix.py'], [('parse_csv/write_csv/averaged_off_diagonals', K + 'common/capacitance_matrix.py')])

p('C11', 'The matrix taken from a solver log is the final one, with its rows and units',
  "From a FasterCap or FastCap log the matrix that is parsed is the last complete one printed; its net names and "
  "rows keep the printed order and its entries are converted to farads consistently for all entries.",
  ['inputs', 'histories'], 'every log, with any number of refinement iterations',
  'one sample log per solver is tested.', [K + 'fastercap/fastercap_runner.py', K + 'fastcap/fastcap_runner.py'],
  [('*_parse_capacitance_matrix', K + 'fast*cap/*_runner.py')])

p('C12', 'The Maxwell matrix is expanded into the equivalent capacitor network',
  "For a symmetrised Maxwell matrix, each pair of distinct conductors gets one capacitor with the negated off-diagonal "
  "entry, and each conductor after the first (the reference) gets one capacitor to the reference conductor with the sum of its row; "
  "only positive capacitances are written. Each terminal is on the net whose name the conductor carries. The input netlist is not "
  "modified, and a conductor that has no net in the circuit is an error rather than silently dropped.",
  ['inputs'], 'every matrix and netlist', 'one matrix and one netlist are tested.',
  [K + 'klayout/netlist_expander.py'], [('NetlistExpander.expand', K + 'klayout/netlist_expander.py')], ['expanded SPICE netlist'])

p('C13', 'The 2.5D netlist carries every parasitic in SPICE units',
  "Every net pair in the summed capacitances and resistances becomes one capacitor (in farads) or resistor (in ohms) "
  "between exactly those two nets in a copy of the LVS netlist; nets that do not exist yet are created once. White-boxed capacitors and "
  "resistors of the schematic are removed only when asked for.",
  ['inputs', 'configurations'], 'every extraction result and netlist', 'no test covers this expander.',
  [K + 'rcx25/netlist_expander.py'], [('NetlistExpander.expand', K + 'rcx25/netlist_expander.py')], ['SPICE netlist'])

p('C14', 'Netlist reduction drops only capacitors below the threshold',
  "Reducing a netlist works on a copy, combines devices first, and then removes exactly those devices of the top circuit that are "
  "capacitors with a value below the threshold. Devices of other kinds and capacitors at or above the threshold stay.",
  ['inputs'], 'every netlist', 'two sample netlists are tested, none at or around the threshold.',
  [K + 'klayout/netlist_reducer.py'], [('NetlistReducer.reduce', K + 'klayout/netlist_reducer.py')])

p('C15', 'The netlist CSV lists every parasitic capacitor with its nets in fF',
  "The netlist CSV has one row for every parasitic capacitor (device class PEX_CAP) of the top circuit, giving its name, the nets of its two terminals and its value "
  "in the unit that the header names.",
  ['inputs'], 'every netlist', 'not tested.', [K + 'klayout/netlist_csv.py'], [('NetlistCSVWriter.write_csv', K + 'klayout/netlist_csv.py')])

p('C16', 'The schematic JSON represents every device and its connections',
  "The netlistsvg description contains every device of the circuit under a unique name, each connected to the nets of "
  "its own terminals with the right polarity, and nets keep one identity throughout the file.",
  ['inputs'], 'every netlist', 'two samples are compared with expected files.', [K + 'netlistsvg/netlist_json.py'],
  [('NetlistJSONWriter', K + 'netlistsvg/netlist_json.py')])

p('C17', 'Technology lookups return the entry that was asked for, in its documented unit',
  "Each lookup table of the technology is complete (every entry of the tech file that it indexes), keyed by the "
  "quantity its name states, in that orientation, and returns the matching entry. Values that the tech file gives in "
  "milliohm come out in ohm.",
  ['inputs', 'configurations'], 'every tech file and every key', SLOW, [K + 'tech_info.py'], [('TechInfo properties', K + 'tech_info.py')])

p('C18', 'The tech-file generator stores each argument in the field it belongs to',
  "Each helper that adds an entry to the tech file sets the field named after the argument from exactly this argument, on a newly "
  "added entry of the matching kind, and sets every field it has an argument for.",
  ['programs', 'inputs'], 'every helper and every call of it', 'the tests do not read the generated tech files.',
  ['cxx/gen_tech_pb/protobuf.cpp', 'cxx/gen_tech_pb/protobuf.h'], [('add*/set* helpers', 'cxx/gen_tech_pb/protobuf.cpp')])

p('C19', 'Every name used in a PDK description refers to an entry that exists',
  "In each supported PDK, every layer, contact, via and dielectric that the process stack, the computed layers or the "
  "parasitics tables refer to is declared in that PDK, in the role in which it is used (a contact where a contact is meant, a metal where a metal is meant), "
  "and declarations that lookups use as keys are unambiguous, including the GDS layer and purpose pairs.",
  ['configurations'], 'every reference in every PDK description', 'the tests do not read the generated tech files.',
  ['cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'], [('buildTech', 'cxx/gen_tech_pb/pdk/*.cpp')])

p('C20', 'The parasitics tables of each PDK are complete and consistent',
  "For each PDK, every conductor has a sheet resistance, a substrate, a sidewall capacitance, and every pair of conductors has overlap and fringe "
  "entries; every via and contact has a resistance. Redundant entries agree: duplicates and substrate and well entries "
  "of one layer are equal up to rounding (3 %), and coupling between a layer and the layers below grows as they get closer (up to 3 %).",
  ['configurations'], 'every layer and layer pair of every PDK', 'the tests do not read the generated tech files.',
  ['cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'], [('buildProcessParasiticsInfo', 'cxx/gen_tech_pb/pdk/*.cpp')])

p('C21', 'Each selectable PDK loads its own technology and LVS deck',
  "For each PDK that can be selected, the tech file that the program loads is one that the generator writes, and describes "
  "that PDK, both in the source checkout and in the installed package; its LVS deck exists and its side halo is at least half the height of the metals.",
  ['configurations'], 'every selectable PDK', 'no passing test selects a PDK.',
  [K + 'kpex_cli.py', K + 'pdk_config.py', 'cxx/gen_tech_pb/main.cpp'], [('PDK.config / main()', K + 'kpex_cli.py, cxx/gen_tech_pb/main.cpp')])

p('C22', 'Code and message schema agree',
  "Every field or enumeration value that the program reads or writes on a technology, layout, network, request or result "
  "message is declared for this message in the schema, with that cardinality.",
  ['programs', 'inputs'], 'every access in the program, also on paths that only rare layouts reach',
  'accesses on rarely taken paths (unconnected terminals, black-boxed devices, R mode) are not executed by any test.',
  ['protos/', K + 'tech_info.py', K + 'rcx25', K + 'klayout'], [('protobuf schema', 'protos/kpex')])

p('C23', 'PDK layer names agree with the LVS decks',
  "Each computed layer of a PDK names a layer that the PDK's LVS deck exports under this name, after it has been "
  "defined, so that the extraction can find it in the LVS database; the exported layer is derived from the drawn layer that the computed layer is declared for, "
  "and no other conductor is mixed into it.",
  ['configurations'], 'every computed layer of every PDK', 'needs KLayout LVS runs.',
  ['cxx/gen_tech_pb/pdk', 'pdk'], [('addComputedLayer / LVS deck name()', 'cxx/gen_tech_pb/pdk/*.cpp, pdk/*/libs.tech/kpex')])

p('C24', 'Each LVS layer is attributed to its layout layer, without loss',
  "Each layer of the LVS database that the technology knows is attributed to the layout layer pair that the technology gives; "
  "several LVS layers of one pair are merged and none replaces another. White-boxed device layers are left "
  "out only when devices are treated as black boxes.",
  ['inputs', 'configurations'], 'every LVS database, both treatments of devices', SLOW, [K + 'klayout/lvsdb_extractor.py'],
  [('build_LVS_layer_map, nonempty_extracted_layers', K + 'klayout/lvsdb_extractor.py')])

p('C25', 'Pins, labels and devices are reported with the net they belong to',
  "For every device of the circuit the list of devices has its parameters, and for each terminal its net and its shapes "
  "per extracted layer; every pin shape is reported with its label and net. Neither unconnected terminals nor "
  "terminal shapes on layers that are not extracted stop the extraction.",
  ['inputs'], 'every circuit', SLOW, [K + 'klayout/lvsdb_extractor.py'], [('devices_by_name, pins_pb2_by_layer', K + 'klayout/lvsdb_extractor.py')])

p('C26', 'Overlap capacitance follows area times the layer-pair coefficient',
  "The overlap capacitance recorded for two nets is the unshielded overlap area in square micrometres times the coefficient of "
  "the (upper, lower) layer pair, converted from aF to fF, attributed to the upper and the lower layer and net of the polygons that overlap. Only "
  "layers above are considered, nearer ones first, and polygons passed shield the layers behind them.",
  ['inputs'], 'every layout and layer stack', SLOW, [K + 'rcx25/c/overlap_extractor.py'], [('OverlapExtractor', K + 'rcx25/c/overlap_extractor.py')])

p('C27', 'Sidewall capacitance follows length over distance',
  "The sidewall capacitance recorded for two nets on one layer is the length of the facing edge times the layer's coefficient over "
  "distance plus offset, in fF, attributed to that layer and the two nets, each edge pair seen from both sides counted once in total.",
  ['inputs'], 'every layout', SLOW, [K + 'rcx25/c/sidewall_and_fringe_extractor.py'], [('emit_sidewall', K + 'rcx25/c/sidewall_and_fringe_extractor.py')])

p('C28', 'Fringe capacitance follows the side-overlap coefficient and its shielding',
  "The fringe capacitance recorded between an edge and a polygon on another layer uses the coefficient of the (inside, outside) layer pair, the "
  "edge length and the near and far distance of the polygon, in fF, attributed to the inside and outside layer and net. Shapes of the edge's own layer and layers in between shield it.",
  ['inputs'], 'every layout', SLOW, [K + 'rcx25/c/sidewall_and_fringe_extractor.py'], [('emit_fringe', K + 'rcx25/c/sidewall_and_fringe_extractor.py')])

p('C29', 'A net is never coupled to itself',
  "The 2.5D engine records no overlap, sidewall or fringe capacitance whose two nets are the same.",
  ['inputs'], 'every layout', SLOW, [K + 'rcx25/c'], [('net comparison before recording', K + 'rcx25/c/*.py')])

p('C30', 'The extraction mode decides what is extracted',
  "Capacitances are extracted exactly in the modes that include C and resistances exactly in the modes that include R, and each of the modes is handled.",
  ['configurations'], 'every mode', SLOW, [K + 'rcx25/pex_mode.py', K + 'rcx25/extractor.py'], [('PEXMode', K + 'rcx25/pex_mode.py')])

p('C31', 'Summing up never loses, duplicates or splits a coupling',
  "The summary of an extraction contains the sum of all recorded overlap, sidewall and fringe capacitances per unordered net "
  "pair, and all resistances; two couplings of the same two nets always land in one entry, irrespective of layer and order, and merging two "
  "summaries does not modify them.",
  ['inputs', 'histories'], 'every set of recorded couplings', 'a few samples of each kind are tested.',
  [K + 'rcx25/extraction_results.py'], [('CellExtractionResults.summarize, ExtractionSummary.merged', K + 'rcx25/extraction_results.py')])

p('C32', 'Resistance networks are reported completely, per net, in ohms',
  "For each net with wires the R extraction asks for the shapes, pins, device terminals and vias of this net and for no others, "
  "and reports every node and resistor of the resulting network under this net, with its resistance in ohms.",
  ['inputs'], 'every layout', SLOW, [K + 'rcx25/r/r_extractor.py', K + 'rcx25/extractor.py'], [('RExtractor', K + 'rcx25/r/r_extractor.py')])

p('C33', 'Resistor network simplification preserves its invariants',
  "The network stays symmetric: whatever is stored for (a, b) is found from a and from b. Eliminating a node that "
  "is connected at all (total conductance above 1e-10) inserts the star-mesh equivalent between all pairs of its neighbours; it removes the "
  "node from every index. Precious nodes are never eliminated.",
  ['histories', 'inputs'], 'every network and every order of operations', 'no test covers it.',
  [K + 'rcx25/r/resistor_network.py', K + 'rcx25/r/conductance.py'], [('ResistorNetwork', K + 'rcx25/r/resistor_network.py')])

p('C34', 'The R technology handed to the extraction engine matches the PDK',
  "Each metal appears with its sheet resistance in ohms and each via or contact between the conductors below and above "
  "it with its resistance, with the same layer numbering as the shapes; the description is translated into the engine's form field by field.",
  ['inputs', 'configurations'], 'every technology', SLOW, [K + 'rcx25/r/r_extractor.py', K + 'klayout/rex_core.py'],
  [('prepare_r_extractor_tech_pb, klayout_r_extractor_tech', K + 'rcx25/r/r_extractor.py, ' + K + 'klayout/rex_core.py')])

p('C35', 'Solver list files describe every surface of the model under the right conductor',
  "The list file written for FastCap or FasterCap names every conductor and dielectric surface of the model once, with the permittivities of the materials on its "
  "two sides, all surfaces of one net form one conductor of that net's name, and each refers to a file written by the same call.",
  ['inputs'], 'every model', 'one small model is generated in a test, without checking the list file.',
  [K + 'fastercap/fastercap_model_generator.py'], [('write_fastcap', K + 'fastercap/fastercap_model_generator.py')])

p('C36', 'The 3D model sweep accounts for every layer exactly over its z interval',
  "In the 3D model each conductor and dielectric is active exactly between its bottom and top, planes are visited in ascending order at every bottom and top, and conductors take "
  "precedence over dielectrics, earlier dielectrics over later ones. Wherever two of them (or one and the void) meet, the model has the horizontal or vertical surface between them "
  "exactly once, under the key of the two sides, with its normal towards the outside; it has no surface anywhere else.",
  ['inputs'], 'every stack', 'one small model is generated in a test.', [K + 'fastercap/fastercap_model_generator.py'],
  [('FasterCapModelBuilder.generate, FasterCapModelGenerator', K + 'fastercap/fastercap_model_generator.py')])

p('C37', 'The field-solver model is built from the process stack of the PDK',
  "Each metal of the stack enters the model with the extracted shapes of each net on it, at its height with its thickness, each via on top of the metal below it with its own thickness, "
  "diffusions and the substrate (VSUBS, below everything, cut out around diffusions) likewise; nets keep their (expanded) names. Each dielectric of the stack that is not filtered out enters with its permittivity, "
  "in the order of the stack: the field oxide from 0 to the gate, sidewall and conformal dielectrics around the shapes of their metal, grown by their own and all inner widths, stacked on the inner ones, "
  "the simple dielectric above a metal from there to the next metal. Substrate and dielectrics reach over the enlarged bounding box of the layout; heights are in micrometres.",
  ['inputs', 'configurations'], 'every layout and stack', SLOW, [K + 'fastercap/fastercap_input_builder.py'],
  [('FasterCapInputBuilder.build', K + 'fastercap/fastercap_input_builder.py')])

p('C38', 'The Magic script matches the requested extraction mode and thresholds',
  "The Magic script for a mode requests resistance extraction exactly for the modes with R and capacitance for the modes with C, loads the requested layout and cell, applies the user's thresholds, halo and "
  "short mode, and writes the requested netlist.",
  ['configurations', 'inputs'], 'every mode and option', 'no passing test runs Magic.', [K + 'magic/magic_runner.py'], [('prepare_magic_script', K + 'magic/magic_runner.py')])

p('C39', 'Magic extraction files are parsed by their record layout',
  "Every record kind of the .ext and .res.ext files that the parser knows is turned into an object whose fields come from the "
  "columns in which Magic writes them, for all names and numbers that Magic can write there (names of buses and unnamed nets, fractions, exponents); lines of other kinds are "
  "ignored, and each cell gets its own .ext and .res.ext file.",
  ['inputs'], 'every extraction file', SLOW, [K + 'magic/magic_ext_file_parser.py'], [('parse_magic_ext_file, parse_magic_res_ext_file', K + 'magic/magic_ext_file_parser.py')])

p('C40', 'The Magic report shows everything that Magic extracted',
  "Each port, node, device, resistor node and resistor of every cell of a Magic run becomes one item of the report, in its cell and below the category of its kind, named after its data, with the "
  "coordinates converted from Magic's units (200 per micrometre) to database units; a resistor is marked at the nodes of both ends. The report is saved complete, at the requested or the default path.",
  ['inputs'], 'every extraction result', 'not tested.', [K + 'magic/magic_log_analyzer.py', K + 'kpex_cli.py'], [('MagicLogAnalyzer', K + 'magic/magic_log_analyzer.py')])

p('C41', 'Shapes survive conversion to messages and back',
  "Points, boxes, polygons and regions convert to messages and back with each coordinate and the net property in its own place, in both directions, for all elements.",
  ['inputs'], 'every shape', 'one region is tested.', [K + 'klayout/shapes_pb2_converter.py'], [('ShapesConverter', K + 'klayout/shapes_pb2_converter.py')])

p('C42', 'Every tool location has a default and can be overridden by its own variable',
  "Every environment variable the program documents is read under its own name, and when it is not set the default for this variable is used. "
  "A variable that is not set, alone or together with others, never stops the program.",
  ['configurations'], 'every variable', 'a sample environment is tested.', [K + 'env.py'], [('EnvVar, Env', K + 'env.py')])

p('C43', 'Include/exclude patterns select consistently',
  "A pattern of included and excluded choices selects the same choices whether a list is filtered or a single choice is asked "
  "for: 'all' selects all, 'none' none, an included choice is selected and an excluded choice is not; case and blanks around the "
  "parts of a pattern do not matter, and contradictory patterns (all with none, all with inclusions, none with exclusions) are rejected.",
  ['inputs'], 'every pattern and choice', 'not tested.', [K + 'util/multiple_choice.py'], [('MultipleChoicePattern', K + 'util/multiple_choice.py')])

p('C44', 'Boolean and enumeration arguments are parsed as documented',
  "Each documented spelling of true and false is accepted with that meaning and everything else is rejected; the help text "
  "of an enumeration option lists every member and marks the default.",
  ['inputs'], 'every spelling', 'the help text is tested, the boolean parser is not.', [K + 'util/argparse_helpers.py'], [('true_or_false, render_enum_help', K + 'util/argparse_helpers.py')])

p('C45', 'Everything the 2.5D engine extracts is in its report database',
  "Each capacitance and resistance network that the 2.5D engine records is also entered in the report database, in the category of its kind with a distinct name, and the database is saved at the end "
  "of the extraction in every mode. Of a resistance network every node is shown at its place and every element between its two nodes with its resistance in the unit given; everything the networks are "
  "extracted from (layers and vias with their resistances, devices, pins, and the shapes, pins and terminals of each net) is shown too.",
  ['inputs', 'configurations'], 'every layout, every mode', SLOW, [K + 'rcx25/extraction_reporter.py', K + 'rcx25/extractor.py', K + 'rcx25/c'],
  [('ExtractionReporter', K + 'rcx25/extraction_reporter.py')])

p('C46', 'Repairing a report database never alters the original',
  "Repairing a report reads the original, writes a different file, and carries every category and item over, with category paths split at "
  "unescaped separators only.",
  ['inputs'], 'every report', 'not tested.', [K + 'klayout/repair_rdb.py'], [('repair_rdb, parse_category_path', K + 'klayout/repair_rdb.py')])

p('C47', 'Results do not depend on hash order',
  "The result tables, netlists, models and reports of two runs on the same input are the same: nothing that determines their content or order iterates over an unordered collection (a set, a directory listing).",
  ['schedules', 'inputs'], 'every hash seed', 'the tests run with a fixed hash seed.', [K], [('ordered containers / sorted()', K)])

p('C48', 'Caller-owned inputs are never modified',
  "Symmetrising a matrix, expanding or reducing a netlist, summing up results, merging summaries, 2.5D extraction, building and writing the 3D model, "
  "R extraction and reporting leave the objects that they were given (netlist, LVS database and its shapes, technology, results, request) as they were.",
  ['histories', 'inputs'], 'every input and every order of calls', 'the tests never look at the inputs after the call.',
  [K + 'common/capacitance_matrix.py', K + 'klayout/netlist_expander.py', K + 'klayout/netlist_reducer.py', K + 'rcx25/netlist_expander.py', K + 'rcx25/extraction_results.py'],
  [('dup()/deepcopy before mutation', K)])

# --- not applicable to static analysis
p('C49', 'The process stack and the parasitics tables of a PDK describe the same process',
  "For each PDK, the overlap coefficient of two conductors is, within 20 %, the one of the parallel plates that the process stack describes between "
  "them (heights, thicknesses, permittivities); the contacts of the stack fill the gap between the layers they join; the metals have one height and one thickness, and do not "
  "overlap vertically; permittivities are at least 1; the sheet resistances of the metals are consistent with their thicknesses (factor 1.35); the plates of MIM capacitors lie on their dielectric.",
  ['configurations'], 'every layer, contact, dielectric and table entry of every PDK',
  'the tests do not read the generated tech files; 2.5D and field solver results silently disagree if the two descriptions do.',
  ['cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'], [('buildProcessStackInfo / buildProcessParasiticsInfo', 'cxx/gen_tech_pb/pdk/*.cpp')])

p('C50', 'The connections of the LVS decks are those of the process stack',
  "In each LVS deck, a contact or via layer is connected to exactly the layers that the process stack declares it between, "
  "the layers of different levels are never connected directly, and pins and labels are connected to the metal they belong to.",
  ['configurations'], 'every connect statement of every LVS deck', 'needs KLayout LVS runs on layouts that use the connection.',
  ['pdk', 'cxx/gen_tech_pb/pdk'], [('connect statements', 'pdk/*/libs.tech/kpex')])

p('C51', 'The netlist tool draws the circuit asked for, with the settings given',
  "The netlist tool reads the file given, describes the circuit named by --cell or, without it, the only top circuit, lets netlistsvg draw exactly that "
  "description to the file given (or to one of its own in the run directory), and shows the drawing exactly when asked to. A cell that does not exist, several "
  "or no top circuits, and unknown log levels are refused with an error status; every option is used.",
  ['inputs', 'configurations'], 'every netlist and every combination of options',
  'the command line of the netlist tool is not tested at all.',
  [K + 'netlist/netlist_cli.py', K + 'netlistsvg/netlistsvg_runner.py', K + 'log/logger.py'], [('NetlistCLI', K + 'netlist/netlist_cli.py')])

p('C52', 'Every message is shown once, at its level, and kept in the log files',
  "A message of any level is shown on the console by exactly one handler when its level is at least the one set with --log_level (and for every level name, "
  "all included, the level set is that of the name); debug, info, warning, error and subproc log at their own levels; the output of the external tools is shown verbatim. From the start of the "
  "validation of the settings, messages are also written to the log files, which move to the output directory of the run without losing what they contain "
  "or what an earlier run left there, also when the settings are refused.",
  ['configurations', 'histories'], 'every level, every message, runs with and without earlier log files and with refused settings',
  'the tests do not look at log output.',
  [K + 'log/logger.py', K + 'kpex_cli.py'], [('configure_logger / LogLevelFilter', K + 'log/logger.py'), ('setup_logging', K + 'kpex_cli.py')])

p('C53', 'The exported and self-checked surfaces are those of the model',
  "For each material and each net of the 3D model, the STL export writes one file with exactly the triangles of its surfaces, facing its outside, whatever "
  "the net is called. The geometry check looks at the same surfaces, all of them, and reports and counts every edge that occurs twice in one direction and every edge "
  "without its reverse (after edges that only overlap were split), comparing corners on the database grid.",
  ['inputs'], 'every model, every net name', 'the tests export one small model and do not look at the files; the check is run on a correct model only.',
  [K + 'fastercap/fastercap_model_generator.py'], [('dump_stl / check', K + 'fastercap/fastercap_model_generator.py')])

p('C54', 'Every name, attribute, import and parameter the program uses exists',
  "On every path, also those that only rare options or layouts reach, the names, attributes and imported symbols that the code uses are defined and calls match the parameters of what they call, "
  "so that no run ends for want of a definition.",
  ['inputs', 'configurations'], 'every option, layout and technology',
  'Python only finds a missing definition when the statement runs; the resistance mode, the field-solver engines, the debug reports and the error paths are executed by no test.',
  [K], [('all modules', K)])

p('C55', 'A value is not used on a path on which it is known to be missing',
  "Where the code has established that a value is None, that a search found nothing, or that a table has no such entry, it does not go on to use that value or entry: "
  "the missing case is handled, reported or skipped.",
  ['inputs', 'configurations'], 'every path of every function', 'the missing cases (unknown nets, unparsable lines, absent layers) are error paths that no test takes; on the regular path the '
  'two outcomes of such a test being exchanged ends every run that the tests do not make.',
  [K], [('all functions', K)])

p('C60', 'Extracted values agree with a field solver or with Magic',
  "The capacitances and resistances of the 2.5D engine agree with those of a field solver and of Magic within the tolerance of the models.",
  ['inputs'], 'every layout', 'needs the external tools and a numerical comparison.', [K + 'rcx25'], [('2.5D models', K + 'rcx25')])
p('C61', 'Generated surface meshes are closed and free of overlaps',
  "The triangulated surfaces of the 3D model are closed, consistently oriented and do not overlap.",
  ['inputs'], 'every layout', 'one small model is generated.', [K + 'fastercap/fastercap_model_generator.py'], [('triangulation', K + 'fastercap/fastercap_model_generator.py')])
p('C62', 'Star-mesh elimination preserves terminal resistances numerically',
  "Between any two precious nodes the resistance before and after simplification is the same up to rounding.",
  ['inputs', 'histories'], 'every network', 'not tested.', [K + 'rcx25/r/resistor_network.py'], [('eliminate_node', K + 'rcx25/r/resistor_network.py')])
p('C63', 'Runtime and memory stay proportional to the layout',
  "Extraction time and memory grow no worse than the neighbourhood density of the layout.",
  ['inputs'], 'every layout', 'timing.', [K], [('neighbourhood queries', K + 'rcx25/c')])
p('C64', 'The PDK coefficients are physically right',
  "The coefficients of each PDK are those of the foundry's documentation.",
  ['configurations'], 'every coefficient', 'the ground truth is outside the repository.', ['cxx/gen_tech_pb/pdk'], [('tables', 'cxx/gen_tech_pb/pdk')])
p('C65', 'The LVS decks extract the right devices and connectivity',
  "The LVS decks of the PDKs recognise each device and connection of a layout.",
  ['inputs'], 'every layout', 'needs KLayout.', ['pdk'], [('LVS decks', 'pdk')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
