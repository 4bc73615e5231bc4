"""Which rule modules decide which property."""
PROPS = {
    'P04': {'rules': ['collectives'],
            'explanation': 'Rank-dependence dataflow: obligations = branches on rank-dependent conditions around which '
                           'collective calls are made, uses of root-only values, broadcast roots, files made by one rank '
                           'and message tags.',
            'assumptions': ['arguments given to a call are the same on every rank unless they are known to be '
                            'rank-dependent', 'a rank that fails is not followed further']},
    'P01': {'rules': ['resources'],
            'explanation': 'Typestate analysis: every call that opens a handle is followed over the control-flow graph of '
                           'its function (with exceptional edges) to a close, a hand-over to the caller or a closing '
                           'owner; obligations = open sites and functions that may close a borrowed handle.',
            'assumptions': ['close methods of external libraries close', 'asynchronous exceptions are not considered']},
    'P02': {'rules': ['scopes'],
            'explanation': 'Save/restore automaton: obligations = context managers, temporary assignments, scope entries, '
                           'communicator creations and shift pairs; each must be undone on every exit of the CFG.',
            'assumptions': ['clean-up calls do not fail themselves']},
    'P07': {'rules': ['procstate'],
            'explanation': 'Alias flow analysis with per-function return, mutation and store summaries: obligations = every '
                           'module-level container, class-level container and mutable default, none of which may be changed '
                           'in place by any function; plus scans of attribute writes to shared objects, process-wide '
                           'setters and memoisation.',
            'assumptions': ['state kept inside external libraries is not modelled', 'user registration APIs are exempt']},
    'P03': {'rules': ['outputs'],
            'explanation': 'Path-sensitive interprocedural value-numbering walk: obligations = calls that remove or replace '
                           'files, calls that write converter output (per converter class), the directory handed to the '
                           'converter, overwrite defaults and weight-file writes.',
            'assumptions': ['the root rank does the file-system work', 'no other process changes the output directory '
                            'between the check and the write']},
    'P05': {'rules': ['lazy'],
            'explanation': 'Guarded call-graph reachability: obligations = public operations that open, describe, slice or '
                           'copy, none of which may reach a read of the source except behind an established allocation fact; '
                           'plus the gate in front of the read, sibling values and raw array reads in drivers.',
            'assumptions': ['receivers whose class cannot be inferred resolve to every class with a method of that name',
                            'reads done inside external libraries on construction are not modelled']},
    'P06': {'rules': ['arguments'],
            'explanation': 'Interprocedural container-alias flow, one run per receiver class and per value of flag parameters: '
                           'obligations = public constructors, methods and setters taking parameters, none of which may reach '
                           'an in-place change of a container the caller passed; plus containers kept in attributes.',
            'assumptions': ['what external libraries do with a container passed to them is not modelled',
                            'containers reached through attributes of ocgis objects belong to those objects']},
    'P08': {'rules': ['fits'],
            'explanation': 'Whole-program name, import, attribute, signature, override, result-shape and format checking: '
                           'obligations = functions (names and attributes), imports, resolved calls, overrides, used results, '
                           'literal formats and container method calls.',
            'assumptions': ['receivers of unknown class are checked only where the method name is used by ocgis alone',
                            'attributes of objects of other libraries are not checked']},
    'P09': {'rules': ['purity'],
            'explanation': 'Access-path effect analysis per receiver class: obligations = every property and get/is/has/iter/'
                           'copy/slicing/calculation method, none of which may change an attribute of its object (or of an '
                           'object passed to it) other than computing it for the first time; and every container attribute '
                           'changed in place by some method, which copy() must replace.',
            'assumptions': ['access paths are followed three steps deep; changes deeper inside members are not reported',
                            'copies share arrays with the original, as documented',
                            'reading the dimension map may add its placeholder entries, as the existing tests require']},
    'P10': {'rules': ['options'],
            'explanation': 'Def-use analysis of parameters and resolved-call argument matching: obligations = parameters and '
                           'keywords of every function, pairs of options of the same name at calls, named arguments, settings '
                           'of executing objects, arguments of OcgOperations and options of the command line.',
            'assumptions': ['an option of the same name means the same thing in caller and callee, except where the table in '
                            'the rule says otherwise',
                            'whether a used value has the right effect is not decided']},
    'P16': {'rules': ['masks'],
            'explanation': 'Flow-sensitive dataflow of array kinds (masked, data below a mask, filled with not-a-number, mask, '
                           'plain) through the calculation library and spatial averaging: obligations = operations given '
                           'masked arrays, stores of computed data (each followed by its mask), masks taken from a step and '
                           'masks that are cleared.',
            'assumptions': ['numpy.ma functions and numpy ufuncs respect masks', 'coordinate values are not masked',
                            'regridding by ESMF is not followed']},
    'P17': {'rules': ['iterations'],
            'explanation': 'Dataflow over every loop and comprehension: obligations = locals bound in a loop and read in a later '
                           'iteration or after it, loops that must be able to continue, elements that must be used, collections '
                           'and positions while iterating, iterators consumed twice, containers handed out by each iteration.',
            'assumptions': ['loops listed in the rule carry values on purpose (one line of reason each)',
                            'what a called function keeps between calls is decided by P02, P06 and P07']},
    'P14': {'rules': ['orders'],
            'explanation': 'Dataflow of order: which expressions are sets, or sequences and dictionaries made from sets and directory '
                           'listings, per function and per kinds of its arguments; obligations = every use of such an expression and '
                           'every loop over one. Plus must-write analysis of arrays allocated without values, calls that read clocks, '
                           'random numbers and addresses, and receives without a source.',
            'assumptions': ['dictionaries keep the order in which they were filled', 'sums may be made in any order',
                            'names of scratch files do not reach results']},
}
