"""deciding technique per property, and why a property is not claimed"""
import sys as _s
VF = "static analysis: gated value-flow (symbolic terms of assigned values under path conditions, nothing executed)"
TS = "static analysis: event-order (typestate) rules over the traced effects of the methods, with helper calls inlined"
TECHNIQUE = {
    "C01": (TS + ": file creation, stores, close and rename of the output file", ""),
    "C07": (VF + " of reductions: operation, axes and remaining dimension names", ""),
    "C10": (VF + " of the request, the mirrored chunk and the store index per store site", ""),
    "C12": (VF + " of every attribute, variable and dimension creation of the header", ""),
    "C30": (VF + " of character arrays through construction, conversion, transposition and stretching", ""),
    "C33": (VF + " of the name string of every derived array (operand names and operation tokens in order)", ""),
    "C03": (VF + " of units through every arithmetic operator", ""),
    "C04": (VF + " of dimension-name sequences through every operator", ""),
    "C05": (VF + " with conditional constant propagation of the operands' directions", ""),
    "C08": (VF + " of the index every function and node passes on, and of what is requested for a null index", ""),
    "C22": ("static analysis: enumeration of the function and operator classes of the class graph, with value-flow of their constructor arguments into their evaluation", ""),
    "C23": (VF + ": sets of result metadata for the null index compared with those for data", ""),
    "C13": (VF + " of the validated data and of the validation node's warnings under declared and undeclared attributes", ""),
    "C34": (VF + " of the file index, dimensions, units and direction of read nodes", ""),
    "C35": (VF + " of the joined start, stop and step, decided by sign and order reasoning over polynomial normal forms", ""),
    "C36": (VF + " of chunk bounds and counts, decided by induction over the loop's phi terms and polynomial normal forms", ""),
    "C09": (VF + " of reduced axes and registered dimensions; event-order rules for the refusal in execute", ""),
    "C11": (VF + " of the two dimension maps, with the rejection conditions evaluated in case worlds, and of the names in mapping nodes", ""),
    "C15": (VF + " of the parsed definition into nodes, with the outcomes decided in case worlds of where a name is known", ""),
    "C16": (VF + " of the groups of descriptors and of the stores into their dictionaries, with agreement decided in abstract worlds of which descriptors are set and equal", ""),
    "C17": (VF + " of the specification reader, with the outcome of each kind of entry decided in case worlds and the contents of files by a least fixed point over its stores", ""),
    "C18": (VF + " of the type, format and date tables of reader, writer and specification writer, compared name by name in case worlds", ""),
    "C02": (TS + ": every opening call reachable from each function of the package, its mode, and the state of the handle until it is closed", ""),
    "C14": ("Grammar analysis of the source: LALR(1) automaton built from the productions and precedences, token languages compared as finite automata, and case analysis of the value-flow summary of every grammar action and of the operator table", ""),
    "C19": ("guard and taint rules over the calls of DataFlow.execute and main with helpers inlined: which conditions, loops and early exits around a collective step depend on the rank; data and function of each partition, arguments of each write", ""),
    "C21": ("the declared options are interpreted and every branch condition, loop and call argument of main is evaluated over the extracted terms for enumerated command lines: what reaches execute, what is loaded, and in which order, on the manager and elsewhere", ""),
    "C20": ("every exception handler of the pipeline is classified from the traced effects of its body and its exits (with helpers inlined): raises on all paths, or one of the documented recoverable cases with the narrow type and a warning of the package category", ""),
    "C29": ("induction step over the extracted terms of the search function for every kind of parse node, and evaluation of the conditions, loops and printed values of main in enumerated abstract definition files", ""),
    "C32": (VF + "the loop that replaces the patterns is followed pass by pass over abstract dates, for every kind of time variable", ""),
    "C31": (VF + "ownership: every write is traced to the container it changes; constructor stores are classified as the argument itself, a shallow or a full copy; shared defaults are neither changed, kept nor handed out", ""),
    "C26": ("the guarded value terms of the description, of both gap checks and of the ordering are evaluated over an enumerated abstract family of time axes (step, calendar, units, bounds, place and size of a gap) and of file orders", ""),
    "C25": (VF + "the effects of each operation of both ports on files (attributes, dimensions, variables, stored values, formats) are derived from the value-flow terms for each combination of arguments and compared with the documented contract; signatures are compared on the syntax tree", ""),
    "C27": (VF + ": iconform's definitions of variables and axes, filling of global attributes, assembly per table and loading of files evaluated over a family of requests from their terms, against the documented layout", ""),
    "C28": (VF + ": the three table readers evaluated over a family of tables, workbooks and requests from the terms they store, as of the point of the program at which each is read, against one structure", ""),
    "C24": ("library contents read from the sources and stubs of the installed packages, against every name, attribute and method the package uses; data flow of true division through the value-flow terms to indices, slices, ranges, shapes, repetitions and dates", ""),
    "C06": ("Alias and effect analysis over the source: every write of every operator, function and node is traced to the objects it may share memory with", ""),
}
NA = {
    "C37": "the values of climate formulas are floating-point results for unbounded input arrays; no static abstraction in reach relates them to the published formulas, only running them does",
}

LIMITS = {
    "C01": "a crash inside netCDF4 or between two system calls is not modelled; the rename itself is taken to be atomic.",
    "C09": "functions of `pyconform/modules` which use positions without registering them (other than the listed finding) are not recognised; only reductions and neighbour differences are.",
    "C12": "the text of the attributes is not judged, only that it is what the specification holds.",
    "C13": "the numbers cf_units gives are not judged; when, from which and to which units a conversion happens is.",
    "C19": "the collective operations are those of asaptools (`partition`, `sync`, `reduce`, …); their internals are assumed correct.",
    "C20": "`os.path.exists` and the like are treated as pure.",
    "C23": "some module functions build their dimensions from data (`chdims`): undecided instances are listed in the evidence.",
    "C24": "optional libraries that are not installed (Nio, Ngl, openpyxl) are undecided; a number read from data or given by the caller is not followed into the sinks.",
    "C26": "calendars noleap, 360_day and standard without reform dates; steps of months, days, hours and years.",
    "C27": "the family of requests: three tables, real and character variables, axes with and without values, with and without definitions; not every entry of the CMIP6 tables.",
    "C28": "the family of tables has at most three files with a few variables each; the data request is modelled through the attributes ParseXML uses. A container that is one of several earlier ones depending on a "
           "truth value (`x = done and y or {}`) is not followed.",
    "C33": "names of results of module functions which rebuild arrays from data are undecided.",
    "C36": "sizes are symbolic positive integers; size 0 is excluded (see below).",
}
