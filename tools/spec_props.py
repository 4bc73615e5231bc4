prop('P01', 'Every file opened by an operation is closed again on every path',
     'Every file, dataset or archive that the library opens for itself while reading metadata, loading values, writing '
     'output, merging weights or zipping is closed again before the call that opened it ends, whether that call returns '
     'normally, returns early or fails with an exception. A handle is exempt only if it is handed to the caller as the '
     'result, or if the caller supplied it already open; a handle supplied by the caller is left open.',
     ['inputs', 'fault_sequences'], 'every input file, every request and every point at which an exception can be raised',
     'Tests read and write well-formed files and stop at the first failure; they never look at open handles after a read '
     'or write fails half-way, and the number of failing points is unbounded.',
     ['src/ocgis/driver/base.py', 'src/ocgis/driver/nc.py', 'src/ocgis/driver/csv_.py', 'src/ocgis/driver/vector.py',
      'src/ocgis/spatial/grid_chunker.py', 'src/ocgis/util/large_array.py', 'src/ocgis/util/zipper.py',
      'src/ocgis/variable/crs.py', 'src/ocgis/util/geom_cabinet.py'],
     [('driver scope closes what it opened', 'src/ocgis/driver/base.py driver_scope'),
      ('driver close leaves caller-opened datasets alone', 'src/ocgis/driver/base.py AbstractDriver.close')],
     technique='interprocedural typestate analysis over control-flow graphs with exceptional edges',
     note='Decides opened->closed on all CFG paths (including exceptional ones) of every function that opens a handle, '
          'with flag/None correlation and callee close summaries. Trusts that external close methods close and that '
          'calls only raise where a Python expression can.')

prop('P02', 'Temporary state changes are undone on every exit, normal or exceptional',
     'A scope that temporarily changes something - the current communicator, the grid abstraction, the parent of a '
     'variable, dimension names, the optimisation flag, the progress callback, coordinates shifted for a subset, the '
     'recursion state of a record iteration - leaves it exactly as it was found when the scope ends, no matter whether '
     'its body finishes, fails or is abandoned early, and no matter how scopes are nested. Communicators created for a '
     'scope or for an operation are released at that point too.',
     ['inputs', 'fault_sequences', 'histories'],
     'every body run inside a scope, every exception raised in it, every nesting of scopes, every partial iteration',
     'Tests enter each scope once with a body that succeeds; failures inside bodies, nested scopes and abandoned '
     'generators are not sampled.',
     ['src/ocgis/base.py', 'src/ocgis/vmachine/core.py', 'src/ocgis/vmachine/mpi.py', 'src/ocgis/ops/engine.py',
      'src/ocgis/util/large_array.py', 'src/ocgis/spatial/spatial_subset.py', 'src/ocgis/variable/iterator.py',
      'src/ocgis/driver/nc.py', 'src/ocgis/driver/base.py'],
     [('context managers with try/finally', 'src/ocgis/base.py; src/ocgis/vmachine/core.py; src/ocgis/vmachine/mpi.py'),
      ('clean-up of an operations iteration', 'src/ocgis/ops/engine.py OperationsEngine.__iter__')],
     technique='save/restore automaton over control-flow graphs with exceptional edges, discovered save-restore pairs',
     note='Decides, for every context manager, every discovered or anchored save/restore pair and the operations '
          'iteration, that each changed attribute is assigned back a value saved before the change on every CFG exit. '
          'Failures raised by the clean-up calls themselves are out of scope.')

prop('P07', 'No call leaves hidden state behind in the process',
     'What an operation returns depends only on its arguments, the files it reads and the settings the user made: no '
     'call changes, in place or by rebinding, the tables, templates, registries, class-level defaults and default '
     'argument objects that the library shares between calls, an environment setting, os.environ or an interpreter-wide '
     'setting such as the working directory, warning filters, numpy error state or a random seed, and no result is '
     'remembered for the life of the process. Anything handed out from a shared table is a copy. Exempt are the '
     'functions that exist to register things, communicator and logging set-up, and changes undone before the call ends.',
     ['inputs', 'histories'], 'every sequence of calls in one process, in any order',
     'Each test runs few calls in one process and compares with a fixed answer; that an earlier call with other '
     'arguments changes a later one needs particular pairs of calls which tests do not enumerate.',
     ['src/ocgis/constants.py', 'src/ocgis/environment.py', 'src/ocgis/driver/base.py', 'src/ocgis/driver/nc.py',
      'src/ocgis/driver/dimension_map.py', 'src/ocgis/spatial/grid_chunker.py', 'src/ocgis/spatial/geom_cabinet.py',
      'src/ocgis/ops/engine.py', 'src/ocgis/variable/base.py'],
     [('shared tables and templates', 'src/ocgis/constants.py; src/ocgis/driver/dimension_map.py'),
      ('environment settings', 'src/ocgis/environment.py Environment')],
     technique='interprocedural alias-flow analysis of shared objects with mutation and store summaries',
     note='Decides for each module-level container, class-level container and mutable default that no alias of it is '
          'mutated in any function, and that process-wide setters and memoisers are not called outside the exempt '
          'functions. State inside external libraries is not modelled.')

prop('P04', 'Ranks of a parallel run agree on every collective call',
     'On every rank of a parallel run the same collective calls - barrier, broadcast, gather, scatter, reduction, creating '
     'or entering a communicator - are made in the same order: whether one happens never depends on something only one '
     'rank knows, such as its rank number, whether its part is empty or masked, or a value gathered on the root. What is '
     'gathered or computed on one rank is broadcast from that same rank before the others use it; a directory or file '
     'turn of one rank is followed by a synchronisation before the others go on; message tags are distinct and every '
     'tag sent is received. Ranks that fail with an exception are outside this property.',
     ['schedules', 'inputs'], 'every number of ranks, every distribution of data over them, every interleaving',
     'The tests run on one rank, where every collective call is the identity; no test run can show that two ranks take '
     'different branches.',
     ['src/ocgis/vmachine/core.py', 'src/ocgis/vmachine/mpi.py', 'src/ocgis/spatial/base.py',
      'src/ocgis/variable/dimension.py', 'src/ocgis/variable/geom.py', 'src/ocgis/variable/base.py',
      'src/ocgis/variable/crs.py', 'src/ocgis/driver/nc.py', 'src/ocgis/driver/vector.py', 'src/ocgis/driver/csv_.py',
      'src/ocgis/ops/interpreter.py', 'src/ocgis/ocli.py', 'src/ocgis/spatial/grid_chunker.py',
      'src/ocgis/spatial/geomc.py', 'src/ocgis/util/helpers.py'],
     [('communicator management', 'src/ocgis/vmachine/core.py OcgVM'),
      ('per-rank write turns', 'src/ocgis/driver/nc.py; src/ocgis/driver/vector.py; src/ocgis/driver/csv_.py')],
     technique='rank-dependence dataflow with post-dominator matching of collective call sequences',
     note='Decides, for each branch on a rank-dependent condition, that its arms make the same collective calls '
          '(through always-communicating callees), and the broadcast, root, turn and tag rules. Call arguments are '
          'assumed equal on all ranks unless known to be rank-dependent; failing ranks are not followed.')

prop('P03', 'Existing output is never overwritten or removed unless overwriting was asked for',
     'While env.OVERWRITE (the overwrite argument of a converter) is false, which is the default, running operations never '
     'removes or replaces anything that existed before: an existing output directory, an existing main output file of any '
     'output format and existing geometry files written next to it lead to an IOError instead. A directory tree that is '
     'removed - because overwriting is on, to clean up after a failed execution, or as the working directory of '
     'chunked-rwg - is one that the same call created, unless overwriting is on. chunked-rwg never writes weights to a '
     'path that already exists.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'every state of the output location, every output format and option combination, every point at which a run fails',
     'Tests check one existing directory and one existing file; which of the many combinations of format, auxiliary files, '
     'pre-existing side files and failure points destroys data is not sampled, and a miss is unrecoverable for the user.',
     ['src/ocgis/ops/interpreter.py', 'src/ocgis/conv/base.py', 'src/ocgis/conv/csv_.py', 'src/ocgis/conv/fiona_.py',
      'src/ocgis/conv/nc.py', 'src/ocgis/ocli.py', 'src/ocgis/environment.py'],
     [('output directory creation and clean-up', 'src/ocgis/ops/interpreter.py OcgInterpreter.execute'),
      ('existence check of converters', 'src/ocgis/conv/base.py AbstractFileConverter'),
      ('weight file check', 'src/ocgis/ocli.py handle_weight_file_check')],
     technique='path-sensitive interprocedural dataflow (value numbering with branch facts) over file-system effects',
     note='Decides, on every CFG path including exceptional ones, that each removing call is preceded by creation of the same '
          'path or by overwriting being on, and, per converter class, that each written path was found absent. Assumes the '
          'root rank does file-system work and no other process races.')

prop('P05', 'Values are read from the source only when asked for and only once',
     'Opening a dataset as a request, a field or a variable collection, and describing, slicing, copying, renaming, '
     'extracting, masking the coordinates of and adding or removing its variables, never reads variable values from the '
     'source. The value of a variable is read when it is asked for, and only then: not if it is already held, was set or '
     'removed by the user, or is protected (which raises PayloadProtectedError instead). Reading one variable of a source '
     'that yields several at once (vector files, CSV) does not replace values that its siblings already hold. A variable '
     'reports an allocated value or mask exactly when it holds one.',
     ['inputs', 'histories'], 'every dataset, every order of describing, slicing, setting, removing and reading',
     'Small test files make an extra read invisible; which of hundreds of operations reads, and after which history, is '
     'not sampled, while for data larger than memory or protected data one unasked read is a failure.',
     ['src/ocgis/variable/base.py', 'src/ocgis/driver/base.py', 'src/ocgis/driver/nc.py', 'src/ocgis/driver/csv_.py',
      'src/ocgis/driver/vector.py', 'src/ocgis/driver/request/core.py', 'src/ocgis/collection/field.py',
      'src/ocgis/variable/temporal.py'],
     [('lazy value of sourced variables', 'src/ocgis/variable/base.py SourcedVariable._get_value_'),
      ('field creation', 'src/ocgis/driver/base.py AbstractDriver.create_field')],
     technique='guarded call-graph reachability with constant-argument contexts, path-sensitive gate check',
     note='Decides that no describing, slicing or copying operation reaches a read except behind an allocation or emptiness '
          'fact, and on every path that the read is gated. Receivers of unknown class resolve by name; what external '
          'libraries read when opened is not modelled.')

prop('P06', 'Dictionaries, lists and arrays passed by the caller are not changed',
     'No public constructor, method or property setter (and no documented helper function) changes a dictionary, list or '
     'array that the caller passed as an argument - not by adding, removing or replacing entries, at any depth of items, and '
     'not through anything it calls - so the same argument can be used for the next call. A container that an object keeps '
     'in an attribute is not changed in place by its methods later either; attributes given as a dictionary are copied. '
     'Exempt are arguments that exist to be filled (fill, found, target, out, memo), containers that a collection adopts as '
     'its own storage (initial_data, children, groups, tags, dimensions), and objects of ocgis itself.',
     ['inputs', 'histories'], 'every argument value of every public call, and every sequence of calls sharing an argument',
     'Tests write their arguments inline, use them once and look at the result; an argument altered on a rare branch shows '
     'only when the same dictionary or list is used for a second call.',
     ['src/ocgis/base.py', 'src/ocgis/collection/field.py', 'src/ocgis/driver/dimension_map.py',
      'src/ocgis/driver/base.py', 'src/ocgis/driver/request/core.py', 'src/ocgis/ops/parms/base.py',
      'src/ocgis/ops/parms/definition.py', 'src/ocgis/spatial/grid_chunker.py', 'src/ocgis/variable/attributes.py',
      'src/ocgis/variable/base.py', 'src/ocgis/variable/crs.py', 'src/ocgis/variable/iterator.py',
      'src/ocgis/util/helpers.py', 'src/ocgis/vmachine/mpi.py'],
     [('parameter values are copied on assignment', 'src/ocgis/ops/parms/base.py AbstractParameter'),
      ('attributes are copied', 'src/ocgis/variable/attributes.py Attributes.attrs')],
     technique='interprocedural container-alias flow per receiver class with mutation summaries',
     note='Decides for each public entry, per receiver class and flag value, that no in-place change reaches a container '
          'parameter. Containers inside ocgis objects and changes made by external libraries are not followed.')

prop('P08', 'Nothing the code refers to is missing: names, attributes, parameters, formats',
     'No operation, on whatever branch it runs, fails because the code refers to something that does not exist. Every name a '
     'function reads is defined and, for a local name, assigned on some path to the place that reads it; every name imported '
     'from a module of ocgis is defined there; every attribute or method read from self, a module, a class, an enumeration, '
     'the environment, the operations object or another object of ocgis exists; every call of a function, method, '
     'constructor or exception of ocgis fits its signature, keyword arguments passed on through **kwargs included; an '
     'override can be called the way the method it overrides is called; the result of a function that returns nothing is '
     'not used, and a tuple is unpacked into as many names as it has elements; a literal format string gets the arguments '
     'it asks for; methods of lists, dictionaries and strings exist. Error branches raise the error they were written to '
     'raise, never a NameError, AttributeError or TypeError of their own.',
     ['inputs'], 'every branch of every function, whatever input selects it',
     'About a tenth of the lines, mostly error branches and rare options, is run by no test; a misspelt attribute or '
     'a changed signature there shows only when a user gets there.',
     ['src/ocgis'],
     [('error branches', 'src/ocgis/ops/parms/definition.py'), ('overrides', 'src/ocgis/driver/base.py AbstractDriver'),
      ('settings', 'src/ocgis/environment.py Environment')],
     technique='whole-program name resolution, attribute universe and signature conformance',
     note='Checks every name, import, resolved call, override, used result and literal format. Attributes of objects of '
          'unknown class are checked against every name in ocgis and the libraries; what other libraries define is not.')

prop('P09', 'Asking an object something leaves it as it was; copies are independent',
     'Reading a property of a variable, dimension, collection, field, grid, geometry, coordinate system, dimension map or '
     'request, calling one of its get_, is_, has_, iter, as_ or find_ methods, preparing, slicing or copying it, writing it, or '
     'calculating from it changes neither its attributes (name, dimensions, mask, value, bounds, attrs, tags, CRS, '
     'settings) nor, for calculations and queries, those of the objects passed in: the same question asked again, or any '
     'other question asked afterwards, gets the same answer. Computing a private attribute for the first time (lazy '
     'reading), a change that is undone before the method returns, and inplace=True are no changes. What copy() returns '
     'does not share with the original any container that a method changes in place afterwards: attrs, tags, dimensions, '
     'members, children, aliases and the dimension map belong to each copy.',
     ['inputs', 'histories'], 'every query method on every receiver class, every sequence of queries and changes to copies',
     'Tests build a fresh object, ask one question and compare the answer; that the object itself was changed on the way '
     'shows only in the second question or in the sibling that shares the container.',
     ['src/ocgis/base.py', 'src/ocgis/collection', 'src/ocgis/variable', 'src/ocgis/spatial', 'src/ocgis/driver',
      'src/ocgis/calc'],
     [('copies own their containers', 'src/ocgis/variable/base.py VariableCollection.copy'),
      ('lazy values', 'src/ocgis/variable/base.py SourcedVariable.get_value'),
      ('fields own their dimension map', 'src/ocgis/collection/field.py Field.copy')],
     technique='interprocedural access-path effect analysis (mod sets) with shallow-copy and lazy-initialisation tracking',
     note='Follows attributes and the containers directly in them, three steps deep; arrays are shared by copies as '
          'documented; deeper changes inside members of a collection are not reported.')

prop('P10', 'Options given by the caller are used, passed on and never dropped',
     'An option that a caller gives takes effect: the function that accepts it uses the value instead of ignoring or '
     'replacing it, hands it on - in its own place, not in that of another - to each function of ocgis it calls that has '
     'an option of the same name, and an object does so for the settings it was created with. Keywords that a function does '
     'not take for itself are passed on or refused, never dropped. Every argument of an operation and every option of the '
     'command-line program reaches the code that executes it. Exempt are parameters that an interface prescribes and that '
     'have no meaning for an implementation, and what identifies an object (name, uid, attributes, dimensions).',
     ['inputs', 'configurations'], 'every option of every function, in every combination',
     'Dropping an option leaves its default in force; tests call most functions with the defaults, and those with several '
     'options in few of their combinations.',
     ['src/ocgis/ops', 'src/ocgis/ocli.py', 'src/ocgis/driver', 'src/ocgis/collection', 'src/ocgis/variable',
      'src/ocgis/spatial', 'src/ocgis/calc', 'src/ocgis/util'],
     [('arguments of operations', 'src/ocgis/ops/core.py OcgOperations.__init__'),
      ('hand-over to the executing objects', 'src/ocgis/ops/engine.py OperationsEngine')],
     technique='def-use analysis of parameters with resolved-call argument matching',
     note='Decides use and hand-over of values along resolved calls; 28 reviewed pairs (option, callee) in which the same name '
          'means something else are listed in the rule. Whether a used value has the right effect is not decided.')

prop('P16', 'Masked values never take part in computed values, and stay masked',
     'A masked value is a missing value. No calculation of the library, no expression, no sample size and no spatial average '
     'uses the number stored below a mask. A computed value is masked if everything it was computed from is masked, and '
     'masks of results are made from all steps of a group, not from one. Data computed from masked values is never stored '
     'without its mask, and masks that came from an input are not cleared.',
     ['inputs'], 'every mask, calculation, grouping and spatial aggregation',
     'Tests compute with unmasked arrays or with a mask that is the same in every step; numbers below a mask are usually fill '
     'values, so that one wrong element changes everything.',
     ['src/ocgis/calc', 'src/ocgis/variable/geom.py', 'src/ocgis/variable/base.py', 'src/ocgis/constants.py'],
     [('calculations', 'src/ocgis/calc/base.py; src/ocgis/calc/library; src/ocgis/calc/eval_function.py'),
      ('spatial averages', 'src/ocgis/variable/geom.py GeometryVariable.get_unioned'),
      ('masked values of variables', 'src/ocgis/variable/base.py Variable.get_masked_value')],
     technique='dataflow of array kinds (masked, raw, filled, mask) with typestate of data and mask stores',
     note='Decides which operations receive masked arrays or the data below a mask and that every store of computed data is '
          'followed by its mask; it does not decide what numbers result. Regridding (ESMF) is not followed.')

prop('P17', 'Every element of a collection is processed, once and independently of the others',
     'Whatever is done for the variables, fields, geometries, calculations, dimensions, records, children or ranks of a '
     'collection is done for each of them. What is computed for one element does not depend on values that were computed for '
     'an earlier element of the same collection (other than running totals and positions), a result that stands for the whole '
     'collection is not that of its last element, no element is skipped because the loop ends early or because the collection '
     'changed while it was iterated, and results of different elements do not share containers that are changed later.',
     ['inputs'], 'every collection of two or more elements, in every order',
     'Tests use one variable, one field, one geometry or one calculation, or several that are alike; mixing values of elements '
     'shows only with two or more that differ, in one order.',
     ['src/ocgis'],
     [('operations', 'src/ocgis/ops/engine.py; src/ocgis/calc/engine.py; src/ocgis/conv'),
      ('collections', 'src/ocgis/collection; src/ocgis/variable'),
      ('ranks', 'src/ocgis/vmachine/mpi.py'),
      ('grids and geometries', 'src/ocgis/spatial; src/ocgis/regrid/base.py')],
     technique='reaching definitions around the back edge of every loop, with escape and mutation of containers',
     note='Decides what flows from one iteration to the next or past the loop. It does not decide that the computation for one '
          'element is right.')

prop('P14', 'The same request gives the same output, order included, in every process',
     'What a call returns or writes is determined by its inputs. It does not depend on the hash seed of the process, on the order '
     'in which a file system lists a folder, on addresses of objects, on clocks or random numbers (other than in time stamps, logs '
     'and names of scratch files), on what memory contained when an array was allocated, or on which rank sends its message first. '
     'Variables, dimensions, columns, records, groups, files and ranks come in the same order every time.',
     ['inputs', 'schedules'], 'every input, hash seed, directory listing, allocator state and arrival order of messages',
     'One process has one hash seed and mostly one answer; a test that passes may fail in the next process, or pass for ever because '
     'its sets have one element or its folder one file.',
     ['src/ocgis'],
     [('collections and variables', 'src/ocgis/variable; src/ocgis/collection; src/ocgis/base.py'),
      ('temporal grouping and calculations', 'src/ocgis/variable/temporal.py; src/ocgis/calc'),
      ('files', 'src/ocgis/spatial/geom_cabinet.py; src/ocgis/util; src/ocgis/driver; src/ocgis/conv'),
      ('ranks', 'src/ocgis/vmachine; src/ocgis/variable/geom.py; src/ocgis/util/helpers.py')],
     technique='dataflow of order from sets and listings to uses, context-sensitive in the kinds of arguments; must-write analysis',
     note='Sums of floating-point numbers in different orders count as equal. Orders that external libraries choose are not followed.')

# ---------------------------------------------------------------- not decided by this family
prop('P40', 'A spatial subset keeps exactly the elements related to the geometry',
     'Subsetting a field by a geometry with the intersects or clip operation keeps exactly the elements whose geometry '
     'intersects the subset geometry; every other element is masked or cut off, and nothing that should be kept is lost.',
     ['inputs'], 'every grid, every geometry, every optimisation of the search',
     'Tests compare a few rectangles and states on small grids.',
     ['src/ocgis/spatial/spatial_subset.py', 'src/ocgis/spatial/geomc.py', 'src/ocgis/spatial/grid.py',
      'src/ocgis/variable/geom.py', 'src/ocgis/spatial/index.py'],
     [('hint mask and prepared geometries', 'src/ocgis/variable/geom.py; src/ocgis/spatial/geomc.py')],
     na='Quantifies over floating-point geometry: whether an element is kept is the result of shapely predicates and '
        'comparisons of coordinates, which no static argument in reach bounds.')
prop('P41', 'A time or level subset keeps exactly the coordinates asked for',
     'A time range, time region, time function or level range keeps exactly the coordinates (or, with bounds, the cells) that '
     'satisfy it, in order.', ['inputs'], 'every calendar, unit, bounds layout and range',
     'Tests sample a few ranges in the standard calendar.',
     ['src/ocgis/variable/temporal.py', 'src/ocgis/util/helpers.py', 'src/ocgis/variable/base.py'],
     [('get_between', 'src/ocgis/variable/base.py; src/ocgis/variable/temporal.py')],
     na='Quantifies over coordinate values and calendar arithmetic; the truth of each comparison is a run-time quantity.')
prop('P42', 'Spatial aggregation returns the area-weighted mean of what was selected',
     'Aggregating a subset returns, per time and level, the mean of unmasked values weighted by the selected part of each '
     'element.', ['inputs'], 'every subset and every mask', 'Tests check a few geometries against stored numbers.',
     ['src/ocgis/spatial/geomc.py', 'src/ocgis/variable/geom.py', 'src/ocgis/spatial/spatial_subset.py'],
     [('weights', 'src/ocgis/variable/geom.py get_unioned')],
     na='A numerical result; the masking of what enters the mean is also a run-time quantity.')
prop('P43', 'Calculations return the documented statistic of every temporal group',
     'Each calculation returns, for each temporal group and location, the documented function of the unmasked values in the '
     'group.', ['inputs'], 'every function, parameter, grouping, mask and value',
     'Tests compare with stored numbers for small arrays.',
     ['src/ocgis/calc', 'src/ocgis/variable/temporal.py'],
     [('calculation library', 'src/ocgis/calc/library')],
     na='A numerical result.')
prop('P44', 'Regridding results equal the weights applied to the source',
     'Regridded values are those of the regridding library for the same grids, with masked and unmapped destinations masked; '
     'conservative regridding keeps the total.', ['inputs'], 'every pair of grids',
     'The regridding library is not even installed for the tests.',
     ['src/ocgis/regrid/base.py'], [('ESMF interface', 'src/ocgis/regrid/base.py')],
     na='A numerical result produced by an external library that is not available.')
prop('P45', 'Transforming to another coordinate system and back returns the coordinates',
     'Updating the coordinate system, wrapping or unwrapping and undoing it returns the original coordinates and bounds up to '
     'rounding.', ['inputs'], 'every coordinate system and coordinate', 'Tests transform a handful of points.',
     ['src/ocgis/variable/crs.py', 'src/ocgis/spatial/wrap.py'],
     [('transforms', 'src/ocgis/variable/crs.py')],
     na='Numerical round-trip equality through an external projection library.')
prop('P46', 'What is written to a file reads back equal',
     'A field written by an output format and opened again has the same values, masks, coordinates, units, attributes and '
     'coordinate system, as far as the format can express them.', ['inputs'], 'every field and every format',
     'Tests write a few fields and compare part of the content.',
     ['src/ocgis/driver', 'src/ocgis/conv'], [('drivers', 'src/ocgis/driver')],
     na='Round-trip equality of values through external file formats; fill values, packing and type conversion are run-time '
        'quantities.')
prop('P47', 'Slicing before reading equals reading before slicing',
     'Reading a slice of a variable from its source returns what slicing the whole variable returns, bounds and masks '
     'included, for any sequence of slices.', ['inputs', 'histories'], 'every slice sequence and every source',
     'Tests apply one or two slices.',
     ['src/ocgis/variable/base.py', 'src/ocgis/variable/dimension.py', 'src/ocgis/driver/nc.py'],
     [('source index of dimensions', 'src/ocgis/variable/dimension.py')],
     na='Depends on index arithmetic on arbitrary slices, index arrays and masks; the composition of source indices is a '
        'value property.')
prop('P48', 'A parallel run returns what a serial run returns',
     'The combined result of all ranks equals the result of one rank for every operation.',
     ['schedules', 'inputs'], 'every number of ranks and every distribution', 'The tests run on one rank.',
     ['src/ocgis/vmachine/mpi.py', 'src/ocgis/spatial', 'src/ocgis/variable'],
     [('distribution', 'src/ocgis/vmachine/mpi.py OcgDist')],
     na='Equality of values; the communication structure, the part that is visible in the code, is P04.')
prop('P49', 'Dates are decoded and encoded exactly for every calendar and unit',
     'Converting times to dates and back returns the same times for every CF calendar, month and template unit.',
     ['inputs'], 'every calendar, unit and value', 'Tests sample single dates.',
     ['src/ocgis/variable/temporal.py'], [('conversion', 'src/ocgis/variable/temporal.py get_datetime_from_numpy')],
     na='Numerical calendar arithmetic of an external library.')
prop('P50', 'Chunked weights and subsets equal the global ones',
     'Splitting a destination grid into chunks, generating weights per chunk and merging them returns the weights of the '
     'whole grids, every destination element in exactly one chunk.', ['inputs'], 'every grid, resolution and chunk count',
     'Tests use two small grids.', ['src/ocgis/spatial/grid_chunker.py'],
     [('chunk buffers and index maps', 'src/ocgis/spatial/grid_chunker.py')],
     na='Depends on coordinate values, spatial resolutions and index arrays.')
