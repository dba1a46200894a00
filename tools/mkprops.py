#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["pyconform/" + f for f in files],
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where="pyconform/" + b) for a, b in mech],
            "observe_at": list(observe), "hook_needed": None},
    })


prop("C01", "Output files are published whole or not at all",
     "While an output file is being produced its data lives only in a temporary file whose name differs from the output "
     "name and lies in the same directory; the output name appears (replacing any older file) only by a rename of that "
     "temporary file after every chunk of every variable has been written and the temporary file has been closed. "
     "If opening, computing, validating or writing fails anywhere before that, no file is created, truncated or replaced under the output name. A directory of the output name that does not exist is made first.",
     ["fault_sequences", "crash_points", "inputs"],
     "every failure or kill point between opening an output file and finishing it, for every output specification",
     "Tests run writes that succeed on small files; no test interrupts a write or makes a node raise half way, and none looks at the directory while a write is in progress.",
     ["flownodes.py"],
     [("temporary name, open", "flownodes.py: WriteNode._open_"), ("close then rename", "flownodes.py: WriteNode._close_"),
      ("write loop", "flownodes.py: WriteNode.execute")], ["output directory"])

prop("C02", "Input files are opened read-only and always closed",
     "Every file that a user names as input (for building the dataset description, for reading variable data, for time-ordering, and through the "
     "I/O facade's documented open-for-reading entry point) is opened in a mode that cannot modify or create it, and nothing ever writes into it. "
     "Every input dataset handle that the package opens for itself is closed on every path, including when reading raises.",
     ["inputs", "fault_sequences"], "every input file, every read request, every exception raised while the file is open",
     "Tests read writable files they created themselves and never compare them afterwards or count open handles when a read fails.",
     ["flownodes.py", "datasets.py", "climIO.py", "mapdates.py"],
     [("reading a variable", "flownodes.py: ReadNode.__init__, ReadNode.__getitem__"), ("reading headers", "datasets.py: InputDatasetDesc.__init__"),
      ("facade open_file", "climIO.py: NetCDF4PyPort.open_file, PyNioPort.open_file"), ("ordering", "mapdates.py: get_files_in_order")], ["input files", "open handles"])

prop("C03", "Array arithmetic is unit-safe",
     "Adding, subtracting or assigning into a physical array always first converts the other operand to the left operand's units (raising a units error if they are not convertible) and the "
     "result carries the left operand's units; multiplying, dividing or floor-dividing yields the product or quotient of the operand units, and raising to a power requires a scalar dimensionless exponent without direction and yields "
     "the units raised to it. The in-place and reflected forms give the same units as the plain forms, and a unit conversion goes from the array's own units to the requested ones, keeping mask, dimensions and positive direction.",
     ["inputs"], "every pair of operands, units and masks, and every operator form",
     "Tests sample a handful of unit pairs per operator; operand order, in-place forms and combinations with positive direction or masks are mostly unsampled.",
     ["physarray.py"],
     [("add/sub preparation", "physarray.py: PhysArray._add_sub_init_"), ("units of products", "physarray.py: PhysArray._units_op_"),
      ("conversion", "physarray.py: PhysArray.convert, PhysArray._safe_convert_"), ("exponent check", "physarray.py: PhysArray._check_exponent_"),
      ("assignment", "physarray.py: PhysArray.__setitem__")], ["result.units", "result.data", "raised exception"])

prop("C04", "Operands are matched by dimension name, never by axis position",
     "In every binary operation and every assignment on physical arrays the raw numeric operation sees operands whose axes have been put in the same order by dimension name and expanded over the union of the names; "
     "dimensions shared by name but different in size raise a dimensions error, and in-place operations that would need a new axis of size above one are refused. "
     "Indexing and transposing keep the dimension names attached to the axes they describe (an integer index drops exactly that axis's name).",
     ["inputs"], "every pair of dimension tuples and shapes and every operator form",
     "Tests use a few fixed dimension tuples; a mismatch with equal sizes gives wrong numbers silently and is only visible for inputs nobody sampled.",
     ["physarray.py"],
     [("broadcast", "physarray.py: PhysArray._broadcast_"), ("in-place check", "physarray.py: PhysArray._check_inplace_"),
      ("transpose", "physarray.py: PhysArray.transpose"), ("indexing", "physarray.py: PhysArray.__getitem__, __setitem__")], ["result.dimensions", "result.data"])

prop("C05", "Positive direction is reconciled before data are combined",
     "Whenever two physical arrays are combined arithmetically, an operand whose positive direction is opposite to the other's is negated exactly once and takes over that direction, an operand without direction takes over the other's without change of sign, "
     "and the result carries the common direction. Changing an array's direction to up or down negates its values exactly when it had the opposite direction before, and no other operation changes direction without the sign.",
     ["inputs"], "all nine combinations of directions of the operands in every operator form, and all calls that set a direction",
     "Tests cover some combinations for some operators; the sign error of a missed combination is invisible in metadata.",
     ["physarray.py", "functions.py"],
     [("matching", "physarray.py: PhysArray._match_positive_"), ("flip/up/down", "physarray.py: PhysArray.flip, up, down"),
      ("functions", "functions.py: PositiveUpFunction, PositiveDownFunction")], ["result.positive", "result.data"])

prop("C06", "Evaluation never changes its operands or stored data",
     "Evaluating an arithmetic expression, a built-in or module function, or a flow node leaves the data and metadata of every operand array, of every argument object and of data stored in a node exactly as they were; only the explicitly in-place operators may change their left operand, and they never change the right one. "
     "Consequently asking a node twice for the same index gives the same answer.",
     ["histories", "inputs"], "every sequence of evaluations over shared nodes and arrays",
     "Tests build fresh operands for each call and check only the returned value; aliasing through numpy views needs a second look at an operand after the call.",
     ["physarray.py", "functions.py", "flownodes.py", "modules/commonfunctions.py", "modules/atm_funcs.py"],
     [("operators", "physarray.py: PhysArray.__add__ ..."), ("functions", "functions.py: Function subclasses"),
      ("stored data", "flownodes.py: DataNode.__getitem__")], ["operand arrays after the call"])

prop("C07", "Reductions compute what they are named and over all listed dimensions",
     "Reducing a physical array by sum (or mean) over any list of dimension names applies a sum (or mean) and nothing else over exactly those axes, for one or several dimensions in any order, and the result has exactly the remaining dimension names in order and keeps the units and the positive direction. "
     "The sum, mean, min and max functions of the definition language reduce over every dimension they are given.",
     ["inputs"], "every array rank, every set and order of reduced dimensions",
     "Tests reduce over one dimension of small arrays; two-dimension reductions of three-dimensional arrays are not sampled.",
     ["physarray.py", "functions.py"],
     [("array reductions", "physarray.py: PhysArray.mean, PhysArray.sum"), ("functions", "functions.py: MeanFunction, SumFunction, MinFunction, MaxFunction")],
     ["result.data", "result.dimensions"])

prop("C08", "Metadata requests never read data and never validate",
     "Requesting a node with a null index flows through the whole graph as a null index: every function and node passes exactly its own index on to its inputs (translated only by dimension renaming; interface values given to a bounds function, one more than there are cells, are requested whole), so no file data beyond a zero-length slice is read. "
     "The validation node performs no range check, no unit-conversion arithmetic and emits no validation warning for such a request.",
     ["inputs", "programs"], "every graph of nodes and functions and every index",
     "Tests request null indices on single nodes; whether an index is forwarded unchanged by every function in every module is not tested.",
     ["flownodes.py", "functions.py", "indexing.py", "modules/commonfunctions.py"],
     [("null index to empty slices", "indexing.py: align_index"), ("early return", "flownodes.py: ValidateNode.__getitem__"), ("forwarding", "functions.py: Function.__getitem__")],
     ["reads issued", "warnings"])

prop("C09", "Chunking can never split a dimension that is summed over",
     "Every function that collapses a dimension (sum, mean, minimum, maximum, difference or selection along it) registers that dimension as not chunkable when it is constructed, a function that renames dimensions passes a request on under its argument's names, registrations anywhere in a variable's graph are collected and translated to output dimension names, and execution refuses to chunk over any of them "
     "(in debug mode it drops them instead) before any file is opened. Chunk specifications that are not a dictionary, name an unknown dimension or give a size that is not a positive integer are refused likewise, and the caller's chunk specification object is left unchanged.",
     ["configurations", "programs"], "every chunk specification and every graph",
     "Tests chunk over ordinary dimensions of one small dataset; a wrong chunked mean differs from the unchunked one only in the values.",
     ["functions.py", "flownodes.py", "dataflow.py"],
     [("registration", "functions.py: Function.add_sumlike_dimensions and subclasses' constructors"), ("collection", "dataflow.py: DataFlow._find_sumlike_dimensions_"),
      ("refusal", "dataflow.py: DataFlow.execute")], ["raised exception", "output data"])

prop("C10", "Every chunk is read, inverted and written at matching positions once",
     "For each output variable, each chunk's data are requested with the chunk index (mirrored only along dimensions marked for inversion) and stored at that same chunk's index of that same variable; a chunk is skipped only if exactly that index of that variable has been written before. "
     "A dimension is marked for inversion exactly when its coordinate variable declares a direction and the data computed for it run the other way, and an unrecognised or incalculable direction is an error.",
     ["inputs", "configurations"], "every file, variable, dimension set and chunking",
     "Tests that write files do not run to the end in this environment and compare few chunkings.",
     ["flownodes.py"],
     [("chunk loop", "flownodes.py: WriteNode.execute"), ("mirror", "flownodes.py: WriteNode._invert_dims_"), ("direction", "flownodes.py: WriteNode._direction_, _open_")], ["output data"])

prop("C11", "Dimension renaming is one coherent bijection",
     "The input-to-output and output-to-input dimension maps built for a flow are always updated together as exact inverses, an output variable whose dimensions cannot be mapped one to one is rejected, and variables are mapped in order of increasing number of dimensions. "
     "A mapping node translates the requested index from output to input names before requesting data and renames the returned data's dimensions from input to output names, passing unmapped names through, without changing data, units or direction; unset output dimensions take their size from the mapped input dimension.",
     ["inputs", "programs"], "every set of definitions and dimension names",
     "Tests use one dimension naming scheme; swapped or partial maps give transposed or mis-sliced data only for particular schemes.",
     ["dataflow.py", "flownodes.py"],
     [("maps", "dataflow.py: DataFlow._compute_dimension_maps_"), ("node", "flownodes.py: MapNode.__getitem__"), ("map creation", "dataflow.py: DataFlow._create_map_nodes_")], ["dimension_map", "data"])

prop("C12", "The output header says exactly what the specification says",
     "Every attribute of an output variable, including inherited units and calendar, is written to the file under its own name and value except the fill value (given at creation), the direction marker and, when history is off, the history; all global attributes are written. "
     "Each variable is created with its described type, dimensions in described order, fill value and deflate level, each needed dimension with its described size or as unlimited, and the file in its described format; the override deflate level is used if given and rejected outside 0 to 9.",
     ["inputs", "configurations"], "every output specification and every combination of history and deflate options",
     "Tests that inspect written headers cannot run here and cover one specification.",
     ["flownodes.py", "dataflow.py"],
     [("header writing", "flownodes.py: WriteNode._open_"), ("history switch", "flownodes.py: WriteNode.enable_history, disable_history; dataflow.py: DataFlow.execute")], ["output file header"])

prop("C13", "Output data are validated and converted to the declared form",
     "Data leaving validation have the declared data type (casts that are not same-kind are errors), the declared units and calendar (converted, or an error naming the variable), the declared order of dimensions and the declared positive direction (negated if opposite). "
     "Whenever a valid minimum or maximum or an acceptable mean-absolute bound is declared, also if it is zero, data beyond it cause a validation warning, and only values strictly outside a valid range are masked.",
     ["inputs"], "every declared attribute combination and every datum",
     "Tests check one violation per bound, with non-zero bounds and data not equal to the bound; unit and direction handling are not combined.",
     ["flownodes.py"],
     [("validation", "flownodes.py: ValidateNode.__getitem__"), ("inherited attributes", "flownodes.py: ValidateNode.__init__")], ["warnings", "returned data"])

prop("C14", "Definitions mean what ordinary arithmetic notation means",
     "Parsing a definition gives the tree that conventional precedence and associativity give (powers bind tighter than sign, sign tighter than product, product tighter than sum, sum tighter than comparison; binary operators group to the left), constants are folded with the operator written, and evaluating an operator node applies that same operator to its operands in written order. "
     "Every operator the grammar accepts can be evaluated, text that is not a definition raises a type error, and nothing in a definition is silently dropped.",
     ["programs", "inputs"], "every definition string",
     "Tests parse a list of sample strings; the grammar generates infinitely many and operator order matters only in combinations.",
     ["parsing.py", "parsetab.py", "functions.py"],
     [("grammar and precedence", "parsing.py: precedence, p_* functions"), ("operator table", "functions.py: __OPERATORS__ and Operator subclasses")], ["parse tree", "evaluated value"])

prop("C15", "Names in definitions resolve to exactly one source, or the variable is skipped",
     "A name in a definition is read from the input dataset with the index written in the definition if it exists there, otherwise taken from the output variables that carry literal data, and otherwise the output variable is skipped with a definition warning while the others are still processed; operators and functions are looked up by name and number of arguments and receive all positional and keyword arguments in order. "
     "An output file is written exactly when all of its variables could be constructed, and otherwise is skipped with a definition warning that names the missing ones.",
     ["programs", "inputs"], "every set of definitions and every input dataset",
     "Tests cover one complete specification and a few missing-variable cases.",
     ["dataflow.py", "flownodes.py"],
     [("construction", "dataflow.py: DataFlow._construct_flow_"), ("skipping", "dataflow.py: DataFlow._create_definition_nodes_, _create_write_nodes_")], ["warnings", "files written"])

prop("C16", "Dataset descriptions are self-consistent and share canonical descriptors",
     "Constructing a variable, file or dataset description succeeds only if all descriptors of the same name agree (dimensions in size, limit and string flag when set; variables in type and dimensions; files in name, dimensions and variables); otherwise it raises. "
     "After construction every variable and file of the dataset refers to the one canonical dimension and variable object for each name, an unset dimension gives way to a set one, and every variable lists each file that contains it. The description of input files holds every file, variable, attribute and dimension (with its size, limit and whether it is the string length of a text) as the files have it.",
     ["inputs"], "every collection of descriptors",
     "Tests check a few equal and unequal pairs; equality of each single field and propagation across files are sampled sparsely.",
     ["datasets.py"],
     [("uniqueness", "datasets.py: DimensionDesc.unique, VariableDesc.unique, FileDesc.unique and __eq__"), ("canonicalisation", "datasets.py: FileDesc.__init__, DatasetDesc.__init__")], ["raised exception", "descriptor identity"])

prop("C17", "Bad output specifications are rejected or skipped before any data is touched",
     "An output specification entry without definition (or an empty one) is skipped with a warning; missing dimensions, a missing file name, two variables claiming one file, a bounds or coordinates reference to an unknown variable, an unknown format, a type the format cannot store and a deflate level that is not an integer from 0 to 9 are each rejected with an error. "
     "Every accepted file contains exactly its own variable, its listed metadata variables, the variables referenced as bounds or coordinates and every unowned non-scalar variable whose dimensions are all present in the file.",
     ["inputs", "configurations"], "every output specification",
     "Tests use a couple of valid specifications and single errors.",
     ["datasets.py"],
     [("parsing the specification", "datasets.py: OutputDatasetDesc.__init__"), ("type check", "datasets.py: OutputDatasetDesc._validate_netcdf_type_"), ("file checks", "datasets.py: FileDesc.__init__")], ["raised exception", "warnings", "file contents"])

prop("C18", "Type and format vocabularies agree everywhere",
     "Every data type name the package accepts has exactly one storage type of the right kind and size; every accepted file format has a list of storable types, and classic-model formats store only the six classic types plus accepted synonyms of them. "
     "Every type, format and date-pattern string that the specification writer emits is one that the specification reader and the file writer accept, and every file option it emits is one that the reader consumes.",
     ["configurations"], "every type name, format name, frequency and option",
     "Tests exercise a few types and one format; the tables live in different files and nothing ties them together.",
     ["datasets.py", "cli/iconform.py", "flownodes.py"],
     [("type tables", "datasets.py: VariableDesc._NTYPES_, _DTYPES_"), ("format tables", "datasets.py: OutputDatasetDesc._NC_TYPES_, _NC_FORMATS_, FileDesc.__init__"),
      ("emitted vocabulary", "cli/iconform.py: data_types, date_strings, defineVar")], ["specification files", "accepted values"])

prop("C19", "All ranks take part in the same collective steps; each file has one writer",
     "In a parallel run every rank executes the same sequence of collective communication steps, whatever its rank and whatever the input, and no collective step happens in code that only some ranks execute. "
     "Each output file is assigned through the partition to exactly one rank, which writes exactly the files it was given with the chunking, deflate and history options of the call.",
     ["schedules", "configurations"], "every number of ranks, every rank and every early exit",
     "Tests run serially; a collective mismatch only shows as a hang with more than one rank.",
     ["dataflow.py", "cli/xconform.py"],
     [("execution", "dataflow.py: DataFlow.execute"), ("start-up", "cli/xconform.py: main")], ["MPI calls", "files written"])

prop("C20", "Errors are reported, not swallowed",
     "No error raised while describing, constructing, reading, evaluating, validating or writing is silently discarded: each handler in the pipeline re-raises, raises another error carrying the cause, or reports the one documented recoverable case (unrecognised units read as unitless with a warning, an unresolvable name skips the variable with a warning, an already existing directory). "
     "Handlers for recoverable cases catch only that case's error type, and validation problems surface as warnings of the dedicated category so that they can be turned into errors.",
     ["fault_sequences", "inputs"], "every exception raised at any point of the pipeline",
     "Tests trigger few errors and check types for some; a swallowed error shows only as missing or wrong output.",
     ["flownodes.py", "dataflow.py", "datasets.py", "physarray.py", "functions.py", "parsing.py", "indexing.py", "cli/xconform.py"],
     [("handlers", "flownodes.py, dataflow.py, datasets.py, physarray.py, functions.py: every except clause")], ["raised exception", "warnings"])

prop("C21", "Command-line options take effect before and during execution",
     "Each option of the execution command reaches the step it controls on every rank: chunk sizes, deflate level, history suppression, debug and serial mode reach execution unchanged, user modules are loaded before definitions are resolved, and the error option turns validation warnings into errors before any data is evaluated. "
     "Malformed chunk options are usage errors, a missing specification file is an error before anything is written, and giving no input files validates the specification and writes nothing.",
     ["configurations"], "every combination of command-line options",
     "Tests only check the argument parser's results, not what the main routine does with them.",
     ["cli/xconform.py"],
     [("wiring", "cli/xconform.py: cli, main, chunk")], ["execution arguments", "files written"])

prop("C22", "Every function name selects one well-formed function",
     "Every definition-language function has its own unique name within any set of modules a user can load together, is found under that name, can be constructed with the arguments it declares, and passes all of them on so that its evaluation uses each under the position or keyword it was given. "
     "Looking up an unknown operator or function, or an operator with the wrong number of arguments, is an error and never selects something else.",
     ["programs", "configurations"], "every function of the package and its modules, every argument list",
     "Tests construct the built-in functions only; the module functions are never constructed or looked up.",
     ["functions.py", "modules/commonfunctions.py", "modules/atm_funcs.py", "modules/dynvarmipfunctions.py", "modules/CLM_landunit_to_CMIP6_Lut.py", "modules/CLM_pft_to_CMIP6_vegtype.py", "modules/pnglfunctions.py"],
     [("lookup", "functions.py: find, find_operator, find_function"), ("declarations", "functions.py, modules/*.py: Function subclasses")], ["returned class", "raised exception"])

prop("C23", "Function results announce the metadata they deliver",
     "For every function, the dimensions and units announced for a null-index request are those of the data it returns for any other index, and a result with data always carries dimension names from the arguments rather than anonymous axes. "
     "Arguments that control the result (such as the name of the bounds dimension) are honoured as given by the user.",
     ["inputs", "programs"], "every function, argument and index",
     "Module functions have no tests of their announced metadata; disagreement surfaces only deep inside an execution.",
     ["functions.py", "modules/commonfunctions.py", "modules/atm_funcs.py", "modules/CLM_landunit_to_CMIP6_Lut.py", "modules/CLM_pft_to_CMIP6_vegtype.py"],
     [("evaluation", "functions.py, modules/*.py: Function subclasses' __getitem__")], ["dimensions", "units"])

prop("C24", "Integers where integers are required; no vanished library names",
     "No value produced by true division reaches a place that requires an integer (array shape, index, slice bound, repetition count or range limit) without an explicit conversion to integer. "
     "Every attribute the package takes from its numeric, netCDF and units libraries and the standard library exists in the installed versions of those it was built with, and no local name or attribute is used where nothing has bound it yet.",
     ["programs", "inputs"], "every execution path of every function",
     "Most module functions and the file I/O paths are never executed by the tests.",
     ["flownodes.py", "climIO.py", "mapdates.py", "modules/commonfunctions.py", "modules/idl.py", "modules/dynvarmipdiags.py", "modules/dynvarmipfunctions.py", "cli/xconform.py"],
     [("integer sinks", "every module"), ("library names", "every module")], ["raised exception"])

prop("C25", "Both I/O facades fulfil one contract",
     "The two I/O ports offer the same operations with the same parameters and defaults, choosing a port follows the request or the documented preference and exits with an error when it is unavailable, and for each documented format name both create the equivalent file format with history set. "
     "Creating a variable gives it all the given attributes under their own names, defining a file copies every attribute, dimension and metadata variable of the template with time unlimited, and writing stores the values at the requested time index.",
     ["inputs", "configurations"], "every operation of both ports and every argument",
     "The only tests of the facade need a library that is absent, so none of its operations is executed.",
     ["climIO.py"],
     [("ports", "climIO.py: PyNioPort, NetCDF4PyPort"), ("choice", "climIO.py: init_climIO")], ["created file", "returned port"])

prop("C26", "Time ordering reports every gap and orders by time",
     "Ordering a list of files returns every file exactly once in increasing time order with its own number of time steps, and a status that is zero only if every file was checked for internal gaps (unless disabled) and every pair of neighbouring files was found contiguous. "
     "Any disconnect found inside a file or between files yields a non-zero status, and times are compared only in the units and calendar in which they were expressed.",
     ["inputs"], "every list of files and time axes",
     "Tests check a few sample files with one step pattern each.",
     ["mapdates.py"],
     [("ordering", "mapdates.py: get_files_in_order"), ("checks", "mapdates.py: __check_date_alignment__, __check_date_alignment_in_file__")], ["returned lists and status"])

prop("C27", "Generated specifications carry every requested variable and their axes",
     "For each requested variable that has a definition, the generated specification holds that definition, its declared type, its dimensions in reversed request order, non-empty attributes and a file section with the composed name, format and global attributes, and an entry for every one of its dimensions; requested variables without a definition are reported. "
     "A global-attributes file that leaves out optional entries is accepted, and attributes of one variable never leak into the specification of another.",
     ["inputs", "configurations"], "every data request, definition file and attribute file",
     "The tests of the generator exercise argument parsing and a few helpers on one sample.",
     ["cli/iconform.py"],
     [("variables", "cli/iconform.py: defineVar"), ("axes", "cli/iconform.py: defineAxes"), ("assembly", "cli/iconform.py: create_output, fill_missing_glob_attributes")], ["specification files"])

prop("C28", "Every table reader yields the same structure",
     "Whatever the kind of table (spreadsheet, CMOR or data request), the parsed request maps each table name to its variables, axes and table information, each variable carries its identifier, table name and dimension list under the same keys, and the axes contain every dimension its variables use that the table describes, keyed by plain text names. "
     "An unknown field name or table type is an error, never a silently empty result.",
     ["inputs", "configurations"], "every table kind and content",
     "Only one table kind is sampled by tests and its axes are not compared.",
     ["miptableparser.py"],
     [("readers", "miptableparser.py: ParseExcel, ParseCmorTable, ParseXML"), ("dispatch", "miptableparser.py: mip_table_parser, _get_key")], ["returned dictionary"])

prop("C29", "Dependency reports list every variable a definition uses",
     "The variables reported for a definition are exactly the variable names that occur anywhere in it: inside operators, function arguments and keyword arguments at any depth. "
     "The tool analyses every definition of the file it is given, including ones that contain an equals sign, reports requested names without definition, and accumulates the complete list over all analysed definitions.",
     ["programs", "inputs"], "every definition and definitions file",
     "Tests check a few expressions; nesting positions are unbounded.",
     ["cli/vardeps.py"],
     [("search", "cli/vardeps.py: variable_search"), ("report", "cli/vardeps.py: main")], ["printed report"])

prop("C30", "Character data stay character data",
     "An array of text becomes a character array with the string length as last dimension, never carries units or positive direction, and cannot be converted to other units, inverted or transposed away from its last dimension. "
     "Stretching to a longer string length pads with masked empty characters on the last axis only and keeps name and dimensions; when written it is stretched to the output string length.",
     ["inputs"], "every text array and operation",
     "Tests sample a few strings; combinations with writing are not executed.",
     ["physarray.py", "flownodes.py"],
     [("restrictions", "physarray.py: CharArray"), ("writing", "flownodes.py: WriteNode.execute")], ["raised exception", "result"])

prop("C31", "Caller-supplied structures are copied, and defaults are never shared",
     "Constructing descriptors, nodes and flows and executing them leaves every dictionary, list and tuple passed by the caller unchanged, later changes of a description's attributes do not show in the caller's objects, and two objects built with default arguments share no mutable state.",
     ["histories"], "every sequence of constructions and executions",
     "Tests construct each object once from fresh literals.",
     ["datasets.py", "flownodes.py", "dataflow.py", "parsing.py", "cli/vardeps.py", "cli/iconform.py"],
     [("copies", "datasets.py: VariableDesc.__init__, FileDesc.__init__"), ("defaults", "every function with a mutable default")], ["caller's objects"])

prop("C32", "Auto-dated file names carry the first and last time of the file",
     "Every date pattern in an output file name is replaced by the formatted first time, a dash and the formatted last time of the file's time variable, decoded with that variable's own units and calendar; the designated time variable is used if one is declared, else a recognised one. "
     "Without a time variable the name is left as it is with a warning; an unbalanced pattern or a missing time input is an error.",
     ["inputs"], "every file name pattern and time axis",
     "The tests of automatic names do not run here and use one calendar.",
     ["flownodes.py"],
     [("substitution", "flownodes.py: WriteNode._autoparse_filename_")], ["file name", "warnings"])

prop("C33", "History records the operations that were applied",
     "The name of every derived array, which becomes the history attribute, is built from the names of all operand arrays and the operation applied, in operand order; conversions, transpositions, direction changes and renamings that were applied appear in it with their source and target.",
     ["programs", "inputs"], "every expression",
     "Tests compare some names; most operation and function combinations are not sampled.",
     ["physarray.py", "functions.py", "flownodes.py"],
     [("names", "physarray.py, functions.py, flownodes.py: name= arguments")], ["name", "history attribute"])

prop("C34", "Reading composes the definition's index with the requested one",
     "Data read from a file for a request are those at the requested index applied, by dimension name, to the dimensions left by the index written in the definition, and the result carries exactly the dimensions left after both, the file's units (unitless with a warning if unrecognised) and the file's positive attribute. "
     "An index expression is aligned to dimensions by name or padded with full slices, and more than one ellipsis or too many indices is an error.",
     ["inputs"], "every pair of index expressions and every shape",
     "Tests compare joins over a grid of slices for one-dimensional shapes; reading is not executed in this environment.",
     ["flownodes.py", "indexing.py"],
     [("read", "flownodes.py: ReadNode.__getitem__"), ("align", "indexing.py: align_index, index_tuple")], ["returned data", "dimensions"])

prop("C35", "Joining two indices selects what applying them in turn selects",
     "For every shape and every pair of valid index expressions, indexing once with the joined index gives exactly the elements, in the same order, that indexing with the first and then the second gives.",
     ["inputs"], "every shape, start, stop and step",
     "Tests compare a grid of small slices; the statement quantifies over all integers.",
     ["indexing.py"], [("join", "indexing.py: join")], ["selected elements"])

prop("C36", "Chunks tile the index space exactly",
     "For every set of dimension sizes and chunk sizes, the generated chunks are disjoint and together cover every index exactly once, and mirrored chunks cover the mirrored indices.",
     ["inputs", "configurations"], "every size and chunk size",
     "Tests compare a few sizes.",
     ["flownodes.py"], [("chunks", "flownodes.py: WriteNode._chunk_iter_, WriteNode._invert_dims_")], ["generated slices"])

prop("C37", "Diagnostic module functions compute the published formulas",
     "The climate diagnostics (residual circulation, age of air, layer sums, vegetation and land-unit aggregations, interpolation) return the values of the formulas they document, with missing data masked.",
     ["inputs"], "every input field", "The modules have no numerical tests.",
     ["modules/dynvarmipdiags.py", "modules/idl.py", "modules/commonfunctions.py", "modules/CLM_pft_to_CMIP6_vegtype.py"],
     [("formulas", "modules/*.py")], ["values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
