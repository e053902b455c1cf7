"""writes properties.jsonl (the single source of the property texts)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))

D = 'dill/_dill.py'
prop('C01', 'Code objects survive pickling, whatever version laid them out',
 'A code object that is dumped and loaded comes back with every field unchanged: argument, local and stack counts, flags, bytecode, constants, names, variable names, file name, name, qualified name, first line, line table, exception table, free and cell variables. A code object recorded in the layout of another supported interpreter (3.7, 3.8/3.9, 3.10, 3.11a, PyPy 3.11, 3.11; byte fields as bytes or as text; with or without the leading legacy line table) is rebuilt with each recorded field in its own place and a neutral default for every field that layout lacks. An argument list of any other length is refused with an unpickling error.',
 ['inputs', 'configurations'], 'all field values and all supported layouts, pickle protocols 0-5',
 'tests pickle a handful of functions of the running interpreter; the six foreign layouts and arbitrary field values are never loaded',
 [D], [('save_code', 'dill/_dill.py:save_code'), ('_create_code', 'dill/_dill.py:_create_code')], ['fields of the loaded code object'])
prop('C02', 'A function copied by value keeps every attribute it had',
 'A Python function that cannot be found again by importing it is copied, and the copy has the same code, name, qualified name, module, docstring, positional and keyword-only defaults, annotations, extra attributes and closure values as the original, for every pickle protocol and with globals tracing on or off. Calling the copy with the same arguments gives the same result. The original function is left unchanged by being dumped.',
 ['inputs', 'configurations'], 'all values of the attributes (including missing, empty and None ones), every combination of their presence, protocols 0-5, recurse on/off',
 'tests fix a few functions; which attributes are present, empty or None in combination is not explored',
 [D], [('save_function', 'dill/_dill.py:save_function'), ('_create_function', 'dill/_dill.py:_create_function')], ['attributes of the loaded function'])
prop('C03', 'Sharing and cycles among closures, functions and containers are preserved',
 'When a graph of functions, closure cells, lists, dictionaries and instances is dumped as one object, loading reproduces the same graph: one object referenced twice comes back as one object, distinct objects stay distinct, cycles through cells are closed again. Cells come back holding the copy of what they held and empty cells come back empty. This holds whatever order the graph is reached in, with globals tracing on or off.',
 ['inputs', 'configurations'], 'all graphs up to a stated number of functions, cells and containers with arbitrary edges',
 'tests contain a dozen hand-made shapes; the order-dependent deferral of cell contents depends on the whole graph',
 [D, 'dill/_shims.py'], [('save_cell', 'dill/_dill.py:save_cell'), ('deferred cell updates', 'dill/_dill.py:_save_with_postproc')], ['object graph after load'],
 [('postprocessing table', 'what is still to be filled in, by object under construction', 'dill/_dill.py:Pickler._postproc')])
prop('C04', 'A copied function finds the globals it needs, and only gets what it should',
 'A function defined in a live importable module keeps sharing that module\'s live namespace after a round trip when globals are not traced, and a function whose namespace is not that of a live module brings along a copy of its whole namespace. With globals tracing on, the copy has its own namespace holding every global that it, or any function, nested code or closure it reaches, refers to, with the value it had, and no other global of the original namespace. Builtins are always reachable from the copy, and tracing ends for mutually recursive functions.',
 ['inputs', 'configurations', 'programs'], 'all small programs of functions referring to globals and to each other (including cycles), module registered or not, tracing on/off by keyword or by setting',
 'tests use a few single-level examples; reference cycles among globals and nested scopes are not covered',
 [D, 'dill/detect.py'], [('save_function', 'dill/_dill.py:save_function'), ('globalvars', 'dill/detect.py:globalvars')], ['globals and result of the loaded function'])
prop('C05', 'Only what its name leads back to is stored by name',
 'A function or class is stored as a bare reference only when importing its module and following its qualified name yields that very object; loading then gives back the identical object. In every other case (the name is missing, bound to something else, local to a function, or its module is the main program or cannot be imported) it is copied by value, unless by-reference storage was requested, in which case a class is stored by name with a warning or the dump fails with a pickling error. A load never silently yields a different object than the one that was dumped.',
 ['inputs', 'configurations'], 'all states of the import namespace: module present, absent or main; name bound to the object, to another object, or unbound at each step of the qualified name; by-reference on/off',
 'tests cover one function and one class per case; the namespace is an adversary here',
 [D], [('lookup by name', 'dill/_dill.py:_locate_function'), ('_import_module', 'dill/_dill.py:_import_module')], ['identity of the loaded object'])
prop('C06', 'A class copied by value is the same class in behaviour',
 'A class that is copied by value comes back with the same name, qualified name, module, docstring, bases, metaclass, slots, annotations and own attributes (methods, static and class methods, properties, constants), and attribute lookup on it and on its instances resolves as on the original, also when an own attribute is the very object a base provides. Instances keep their state, in the instance dictionary and in slots. Abstract classes keep their abstract methods and registered virtual subclasses; named tuples keep fields and defaults, generic classes their generic bases, typed dictionaries their required keys, enumerations their members.',
 ['inputs', 'programs'], 'all class hierarchies up to a stated number of classes and attributes, attribute values arbitrary',
 'tests define fixed classes; which attribute of which base is shadowed, shared or redefined varies freely',
 [D], [('save_type', 'dill/_dill.py:save_type'), ('own attributes', 'dill/_dill.py:_get_typedict_type'), ('abstract classes', 'dill/_dill.py:_get_typedict_abc'), ('named tuples', 'dill/_dill.py:_create_namedtuple')], ['loaded class and instances'])
prop('C07', 'Dictionaries are copied, live module namespaces are referenced',
 'The namespace dictionary of the main program, or of an importable module under the name it records for itself, is stored as a reference and loads as that very dictionary. Any other dictionary, including one equal to a live namespace, one that merely contains a module\'s name, and ordered or subclassed dictionaries, loads as a new dictionary of the same type with the same keys in the same order and equal values, and never aliases a live namespace.',
 ['inputs'], 'all small dictionaries, with arbitrary values, related in every way to the live namespaces',
 'tests check one dictionary and one module namespace; near misses (equal but distinct, wrong name, no name) are not sampled',
 [D], [('save_module_dict', 'dill/_dill.py:save_module_dict'), ('reference to the main namespace', 'dill/_dill.py:Unpickler.find_class')], ['identity and content of the loaded dictionary'])
prop('C08', 'A keyword beats a setting, and a setting beats nothing',
 'For each of protocol, by-reference, file mode, recursion and ignore, an explicitly given value other than None decides the behaviour of that call, even if it is false or zero, and otherwise the value the global settings hold at the time of the call does. Calls never change the settings, and one call\'s options do not leak into the next. All entry points (dump, dumps, load, loads, copy and the pickler and unpickler classes) agree, except that the pickler class takes a missing protocol from the standard pickler.',
 ['inputs', 'configurations', 'histories'], 'all values of every option and every setting, sequences of calls',
 'tests set one option at a time; falsy explicit values against truthy settings and call sequences are not covered',
 [D, 'dill/settings.py'], [('Pickler options', 'dill/_dill.py:Pickler.__init__'), ('dump/copy', 'dill/_dill.py:dump'), ('Unpickler options', 'dill/_dill.py:Unpickler.__init__')], ['options in effect, produced protocol, settings after the call'])
prop('C09', 'Names in a pickle resolve to the right object, and the ignore option is obeyed',
 'While loading, a module and name pair recorded in the pickle resolves exactly as in the standard unpickler, except for the documented aliases: the old module path of this package, the main program\'s namespace, and the missing NoneType. After loading, an instance of a class of the main program is pointed to the class of that name now living in the main program, only if there is one it can be assigned to and only if the ignore option is off; in every other case the loaded object is returned untouched.',
 ['inputs', 'configurations'], 'all module and name strings up to a stated length, every state of the main program\'s namespace, ignore on/off',
 'tests check one class redefinition; the alias comparison and the ways the re-pointing may not apply are not explored',
 [D], [('find_class', 'dill/_dill.py:Unpickler.find_class'), ('load', 'dill/_dill.py:Unpickler.load')], ['resolved object, class of the loaded instance'])
prop('C10', 'File handles come back as their file mode promises',
 'A pickled file handle comes back for the same name and mode, closed if it was closed: by default as a freshly opened handle (refused where that would create anew what exists); with contents mode at the recorded position, or at the end of a now shorter file, without truncating or altering an existing file; with file mode having the recorded contents written back and standing at the recorded position. Handle and contents mode never create a named file for a reading mode: when the file is gone an anonymous temporary stands in. The standard streams come back as the standard streams.',
 ['inputs', 'configurations'], 'all positions, file sizes before and after, open modes, closed or open, file present or absent at load, three file modes',
 'tests walk a fixed grid with one file content; sizes, positions and mode combinations are not explored',
 [D], [('_save_file', 'dill/_dill.py:_save_file'), ('_create_filehandle', 'dill/_dill.py:_create_filehandle')], ['handle position, mode, file contents after load'])
prop('C11', 'Session files are never written or read through a symbolic link',
 'Saving a session to a path never writes to, truncates or creates the target of a symbolic link at that path, and loading never reads through one, no matter when another process replaces the file between the steps; such an attempt raises an operating-system error. A newly created session file is readable and writable by its owner only. Relying on the default path raises a security warning, giving an explicit path does not.',
 ['schedules', 'fault_sequences', 'inputs'], 'all interleavings of an adversary that creates, replaces or removes the path between any two system calls',
 'tests plant one link before the call; the race windows are not scheduled',
 ['dill/session.py'], [('_safe_open_for_writing', 'dill/session.py:_safe_open_for_writing'), ('_safe_open_for_reading', 'dill/session.py:_safe_open_for_reading')], ['files touched through the open calls'])
prop('C12', 'A saved module state comes back complete',
 'Saving the main program, an importable module or a module-like object and loading it again restores every name to an equal value, with functions bound to the restored module, self-references pointing to it and sharing between names preserved. Names bound since are kept unless the saved state rebinds them. With imported objects saved by reference, each object identified as imported (held under the same name by another module, or a module, class, function or method held there under any name, and no function or class of the saved module itself) comes back as the very object of the module it came from, and every name that was bound is bound again.',
 ['inputs', 'configurations'], 'all small namespaces mixing plain values, functions, classes, modules, imported objects under the same or another name and self-references; refimported on/off; file or stream',
 'tests save one fixed session; the classification of each binding depends on everything imported',
 ['dill/session.py', D], [('dump_module', 'dill/session.py:dump_module'), ('_stash_modules', 'dill/session.py:_stash_modules'), ('load_module', 'dill/session.py:load_module'), ('_restore_modules', 'dill/session.py:_restore_modules')], ['namespace after load'])
prop('C13', 'A session is only loaded into the module it was saved from',
 'Loading a session from a path, or a stream that can be sought or peeked at, identifies the saved module by name and kind without consuming the stream, updates it, and leaves the stream just after the session; naming another module, or a module of the other kind (imported against module-like object), raises a value error and changes nothing. A pickle that is not a session is refused with an unpickling error (also when the stream cannot be looked ahead in and no module is given), and a non-module argument with a type error. Loading returns nothing when it updated the main program or the module object that was passed, and the restored module otherwise.',
 ['inputs', 'configurations'], 'all pairs of saved module and requested module (names, kinds, given as object, as name, or not at all), seekable, peekable and plain streams',
 'tests cover three of the combinations with regular files',
 ['dill/session.py'], [('_identify_module', 'dill/session.py:_identify_module'), ('load_module', 'dill/session.py:load_module'), ('_make_peekable', 'dill/session.py:_make_peekable')], ['raised error, returned module, namespaces'])
prop('C14', 'Session calls clean up however they end',
 'However a session call ends, normally or by an error (even an interrupt) at any step, the table of imported modules is what it was before (apart from modules genuinely imported), files it opened are closed and streams it was given are left open. Loading a session as a dictionary leaves the module itself and its entry in the module table unchanged and returns the saved names, or the current names overlaid with the saved ones when updating.',
 ['fault_sequences', 'crash_points', 'inputs'], 'an error injected at every read, write, open, import and unpickling step',
 'tests only take the successful path and one error',
 ['dill/session.py'], [('load_module', 'dill/session.py:load_module'), ('load_module_asdict', 'dill/session.py:load_module_asdict'), ('dump_module', 'dill/session.py:dump_module')], ['sys.modules, open files, module namespaces'])
prop('C15', 'The pickling self-checks tell the truth and leave no trace',
 'The quick check answers true exactly when the object can be copied and the copy is equal to it, or, unless exactness is asked for, at least of the same type; it answers false when copying or comparing raises (array-likes by item) one of the caught error kinds (any ordinary exception in safe mode) and lets other exceptions through; the listings of bad items, bad objects and bad types agree with it item by item and attribute by attribute; so does the report of errors, to which, unless exactness is asked for, a copy of the same type is enough even when comparing raises. None of these calls changes the warning filters or any other global state, and the check in another process has the given interpreter rebuild the object and says how that went.',
 ['inputs', 'fault_sequences'], 'all outcomes of copying and comparing (equal, unequal, raising each kind of error), exact/safe on/off, warning filter lists',
 'tests call it on well-behaved objects; failing comparisons and filter states are not sampled',
 [D, 'dill/detect.py'], [('pickles', 'dill/_dill.py:pickles'), ('baditems/badobjects/badtypes/errors', 'dill/detect.py')], ['returned answers, warnings.filters'])
prop('C16', 'Turning the extension on and off leaves the standard pickler as configured',
 'After any sequence of enabling and disabling the extension and registering types, the standard pickler handles this package\'s types exactly when the extension is on, and has its original handlers back when it is off; handlers other code put there survive. A type registered by the user is handled by the registered function from then on, by whichever of the two registration forms, without disturbing other types; classes with custom metaclasses are still handled as classes.',
 ['histories'], 'all sequences of enable, disable and register operations up to a stated length',
 'tests flip the extension once',
 [D, 'dill/__init__.py'], [('_extend/_revert_extension', 'dill/_dill.py'), ('extend', 'dill/__init__.py:extend'), ('register/pickle', 'dill/_dill.py:register')], ['dispatch tables after each step'],
 [('dispatch tables', 'handlers by type, of this package and of the standard pickler', 'dill/_dill.py:Pickler.dispatch')])
prop('C17', 'Function introspection reports exactly what the code refers to',
 'For any Python function, method or code object: the reported free variables are exactly its closure names whose cells are filled, with their values; the reported variable names are its local and cell variable names; the reported nested code is exactly the code objects nested in it (at every depth when recursing); the reported global names are exactly the names its code, and nested code when recursing, loads, stores or deletes as globals. The reported global objects are those names bound in its namespace (or in the builtins when asked), plus those of the functions they reach when recursing, each with its bound object; the functions reported inside one are the living ones whose code is nested in it. Objects without code give empty answers.',
 ['programs', 'inputs'], 'all small functions over a set of adversarial names, nested up to a stated depth, cells empty or filled',
 'tests introspect a few fixed functions',
 ['dill/detect.py'], [('freevars', 'dill/detect.py:freevars'), ('globalvars', 'dill/detect.py:globalvars'), ('nestedglobals', 'dill/detect.py:nestedglobals'), ('nestedcode', 'dill/detect.py:nestedcode'), ('varnames', 'dill/detect.py:varnames')], ['returned dictionaries and lists'])
prop('C18', 'Reference searches return real, shortest, unignored chains',
 'Searching for parents or children of an object up to a depth returns a chain that starts or ends at the object, in which every neighbour really refers to the next, whose far end has the requested type, which is no longer than the depth and shortest among all such chains, and which avoids ignored objects; when there is none the object alone is returned, and the one-step parent search returns nothing. Looking up the address of None, True, False, an object that the garbage collector tracks, or one that the given module binds, returns that object; another address raises a reference error, and what is no address a type error.',
 ['inputs'], 'all reference graphs up to a stated size, all depths, types and ignore sets',
 'tests use one list iterator',
 ['dill/pointers.py', D], [('find_chain', 'dill/pointers.py:find_chain'), ('parents/children/parent', 'dill/pointers.py'), ('at/reference', 'dill/_dill.py:_locate_object')], ['returned chains'])
prop('C19', 'Tracing never changes the pickle and reports its true structure',
 'Turning tracing on does not change the bytes produced, whatever the stream can do. In the trace every object that is opened is closed at the same depth in proper nesting, and the size shown for it is the number of bytes its pickling took, in binary units with the value rounded down. Leaving the tracing context restores the level and handlers in effect before, however the block ends, and closes only a file it opened.',
 ['inputs', 'histories', 'fault_sequences'], 'all sizes, all nestings up to a stated depth, tellable and non-tellable streams, exceptions in the block',
 'tests compare a handful of fixed traces',
 ['dill/logger.py', D], [('trace/trace_setup', 'dill/logger.py:TraceAdapter'), ('TraceFormatter', 'dill/logger.py:TraceFormatter.format'), ('TraceManager', 'dill/logger.py:TraceManager')], ['trace records, pickle bytes, logger state'])
prop('C20', 'Indenting and outdenting source text only moves leading whitespace',
 'Indenting a block by some number of spaces adds exactly that much at the start of every line that is indented at least as much as the first (in columns), leaves the other lines alone, and keeps the number of lines and everything after the leading whitespace; only a last line that is just whitespace is left empty. Outdenting removes from each line the first line\'s leading whitespace (or the smaller amount given), never more leading whitespace than the line has and never other characters. Outdenting after indenting a block whose lines are all indented at least as much as the first gives the block back (but for whitespace on an otherwise empty last line).',
 ['inputs'], 'all texts up to a stated length over letters, spaces, tabs, newlines and comment characters, all amounts',
 'tests indent two snippets',
 ['dill/source.py'], [('indent', 'dill/source.py:indent'), ('outdent', 'dill/source.py:outdent'), ('_outdent', 'dill/source.py:_outdent')], ['returned text'])
prop('C21', 'Import and source text, executed, gives back the object',
 'For an importable function, class, module or builtin, executing the produced import text binds the object itself, under the alias when one is given and under its own name otherwise, and binds nothing else. For a function or class whose source is in a file, or in the interpreter\'s history, the produced source is exactly its block of it (decorators included), and executing it (with alias and stripped indentation) defines an equivalent object under the alias or its own name; with the enclosing code asked for, source and import are those of the outermost function around it.',
 ['inputs', 'programs'], 'all objects of small generated modules at every nesting depth, with and without alias, adversarial neighbouring definitions',
 'tests cover a few imports and functions in the test files',
 ['dill/source.py'], [('getimport', 'dill/source.py:getimport'), ('getsource', 'dill/source.py:getsource'), ('importable', 'dill/source.py:importable')], ['namespace after executing the text'])
prop('C22', 'Temporary dumps load back and captured streams are restored',
 'An object dumped to a temporary file or buffer loads back equal (a function, behaving the same), whatever characters it contains, as pickle and, for values their text form denotes and for importable or self-contained functions and classes with source, as source, under its own name or the alias given (a nameless object without alias is refused). Dumping leaves the caller\'s options untouched. Capturing a stream collects everything written to it in the block in order and restores the previous stream however the block ends and however captures nest.',
 ['inputs', 'histories', 'fault_sequences'], 'all texts up to a stated length in the source or value, aliases, nested captures with exceptions at any point',
 'tests dump ASCII sources and never leave a capture by an exception',
 ['dill/temp.py'], [('capture', 'dill/temp.py:capture'), ('dump_source/load_source', 'dill/temp.py'), ('dumpIO/loadIO', 'dill/temp.py')], ['loaded object, sys.stdout'])
prop('C23', 'Change detection reports exactly what changed since it was memorised',
 'After an object has been memorised, together with everything reachable from it through attributes (slots included) and items, asking what changed reports nothing as long as all of it is untouched, and after any attribute or item has been rebound to another object, added or removed, in the object itself or anything reachable, it reports a change and names each attribute that was rebound or removed, or (but for cycles) leads to what was touched, with its present value (none for removed). The yes-or-no form agrees with the detailed one, cycles end, and an object that was never memorised is refused or counts as changed.',
 ['histories', 'inputs'], 'all object graphs up to a stated size and all single or double edits',
 'tests make a few edits to one object',
 ['dill/__diff.py'], [('memorise', 'dill/__diff.py:memorise'), ('whats_changed', 'dill/__diff.py:whats_changed'), ('has_changed', 'dill/__diff.py:has_changed')], ['returned change sets'],
 [('memo', 'attribute and item identities at memorisation time', 'dill/__diff.py:memo')])
prop('C24', 'Built-in wrappers come back as the same kind around the same things',
 'Slices, ranges, bound methods, partial and cached functions, properties, static and class methods, super objects, mapping proxies, dictionary views, item and attribute getters, generic aliases, the singletons and their types all come back as an object of the same type wrapping equal parts with the same parameters, for every protocol. Where two wrappers share a wrapped object the copies share it too. A capsule that a module holds under the capsule\'s name comes back as that very capsule, any other one with its name, pointer and context.',
 ['inputs'], 'all values of the wrapped parts and parameters, protocols 0-5',
 'tests wrap one or two values each',
 [D], [('save_slice etc.', 'dill/_dill.py')], ['fields of the loaded wrapper'])
prop('C25', 'Descriptors, type objects and modules come back as themselves',
 'A descriptor of a built-in or user-defined class (slot member, get/set, method, wrapper or class-method descriptor) loads as that class\'s own descriptor of that name, whatever the class is called and wherever it is defined. Built-in types and the types of the types module load as the identical type. Imported modules load as the module of that name, those of the standard library and installed packages by bare reference, others together with their saved state.',
 ['inputs', 'configurations'], 'all class names (including those of names used inside this package), all slot names, all module names and file locations up to a stated length',
 'tests use descriptors of a few built-in types only',
 [D], [('_getattr', 'dill/_dill.py:_getattr'), ('_load_type', 'dill/_dill.py:_load_type'), ('save_module', 'dill/_dill.py:save_module'), ('_is_builtin_module', 'dill/_dill.py:_is_builtin_module')], ['identity of the loaded object'])
prop('C26', 'Locks, weak references and proxies keep their state',
 'A lock comes back locked exactly if it was locked; a re-entrant lock that is free or held by the loading thread comes back with its owner and recursion count, one held by another thread is refused. A weak reference, proxy or callable proxy comes back referring to the copy of its referent, of the same kind, sharing it with other references in the same pickle, and a dead one comes back dead; this holds whatever text the referent\'s string forms produce.',
 ['inputs', 'histories'], 'all lock states, all string forms of the referent up to a stated length, referent alive or dead, shared or not',
 'tests use classes with default string forms and unlocked locks',
 [D], [('save_lock/save_rlock', 'dill/_dill.py'), ('save_weakref/save_weakproxy', 'dill/_dill.py'), ('_proxy_helper', 'dill/_dill.py:_proxy_helper')], ['state of the loaded object'])
prop('C27', 'NumPy objects come back equal, with their type and attributes',
 'An array comes back with the same element type (but for byte order), shape, memory order and elements, and an instance of an array subclass with the same class and with the attributes it had, unless the subclass defines its own reduction, which is then followed. An element type comes back equal, and its class, the scalar types and a universal function found under its name as the identical object; a universal function that is not found is refused. This holds for every protocol and whatever was pickled before, and the array dumped is left unchanged.',
 ['inputs', 'histories'], 'all small arrays over the element types, subclasses and attribute values, protocols 0-5',
 'tests pickle one array, two subclasses and one universal function',
 [D], [('handlers registered on the fly', 'dill/_dill.py:Pickler.save'), ('array subclasses', 'dill/_dill.py:_create_array'), ('element type classes', 'dill/_dill.py:_create_dtypemeta')], ['loaded array, element type or function'])
prop('C28', 'Text that brings along what an object needs rebuilds it elsewhere',
 'Executing the importable text of a function, class, builtin or plain value in an empty module binds the object itself when an import is asked for, and otherwise an equivalent one of that module, under the alias or its own name; the text also defines the global values, functions, classes, instances and modules the function refers to, directly or through other functions, and the values it closes over. The import of a closure is that of this very closure, never of another one made alike. The text dumped with a pickled object binds an equal copy under the alias, and nothing else when enclosed; dumped with its class, the copy is of the class the text defines, whatever the module is called.',
 ['inputs', 'programs'], 'all small generated modules: forms of functions and factories, kinds of globals and closed-over values, aliases, module names of any length',
 'tests compare the text for a dozen objects of the test file and execute almost none of it',
 ['dill/source.py'], [('importable', 'dill/source.py:importable'), ('dumpsource', 'dill/source.py:dumpsource'), ('_closuredimport', 'dill/source.py:_closuredimport'), ('_wrap', 'dill/source.py:_wrap')], ['namespace after executing the text in a new module'])
prop('C29', 'The catalogue of types holds exactly what was asked for',
 'After loading the catalogue of types, its pickleable and its unpickleable objects being asked for or not, it holds exactly the objects of the lists last asked for, those dill itself registers in any case, and what the user put there under other names. The module of types then names the type of each of these objects under the same name and nothing else, whatever was loaded before. A name stands in one of the two lists only, and loading leaves the lists as they are.',
 ['inputs', 'histories'], 'all small catalogues and histories of calls, with entries added and removed by hand in between; the catalogue of the tree',
 'tests load the catalogue once, asking for one kind',
 ['dill/__init__.py', 'dill/objtypes.py', 'dill/_objects.py'], [('load_types', 'dill/__init__.py:load_types'), ('names of the types', 'dill/objtypes.py'), ('the lists', 'dill/_objects.py')], ['dill.objects', 'names in dill.types'],
 [('catalogue', 'objects offered, by name', 'dill/__init__.py:objects')])
prop('C30', 'Streams recorded by former releases are read as what they recorded',
 'A stream that refers to this package\'s loading functions, under the present name or the former one (dill.dill) of the module they are in, and gives them arguments in any form released versions wrote, loads as the object it recorded. So do functions with attributes and keyword-only defaults among the arguments, cells recorded by value or marked as empty, classes, types by their catalogue name, named tuples without defaults, class attributes by owner and name, builtin methods, modules, locks, weak references, partials, buffers, evaluated texts and typing tuples, and the names __main__ and NoneType of the former builtin module. One object recorded once and referred to twice loads as one.',
 ['inputs', 'configurations'], 'all forms of the arguments, each value arbitrary, missing or None, under both module names',
 'tests only load what the same version has just written; the forms of former releases are never read',
 [D], [('_create_function', 'dill/_dill.py:_create_function'), ('_create_cell', 'dill/_dill.py:_create_cell'), ('_load_type', 'dill/_dill.py:_load_type'), ('_getattr', 'dill/_dill.py:_getattr'), ('find_class', 'dill/_dill.py:Unpickler.find_class')], ['object loaded from a stream'])
prop('C31', 'Dumps made one after another, or inside one another, do not disturb each other',
 'Several objects dumped one after another by one pickler and loaded by one unpickler come back each as it was, and what they share is shared between the copies as well; after the memo of the pickler was cleared, what follows are independent copies. Dumps made one after another to one stream are loaded one after another, whatever stands between them, each load leaving the stream just after the dump it read. A dump or load made while another is under way, by the reduction of an object or in another thread, affects neither.',
 ['inputs', 'histories'], 'all small graphs and sequences of dumps, memo cleared or not, kinds of streams, protocols',
 'tests make one dump with each pickler and each stream',
 [D], [('Pickler', 'dill/_dill.py:Pickler'), ('Unpickler', 'dill/_dill.py:Unpickler'), ('postponed steps', 'dill/_dill.py:_save_with_postproc'), ('dump/load', 'dill/_dill.py:load')], ['objects loaded from one stream, position in the stream'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, sch)
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
    print(len(P), 'properties')
