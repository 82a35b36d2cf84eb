#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
E = "pyo3_bindgen_engine/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith("pyo3") else E+f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Only attributes the configuration admits become bindings",
 "A member of a Python module or class is turned into a binding only if the configuration admits it: its name is not one of the reserved names, it is not blocklisted, it is not private (leading underscore in its own name or in any segment of the module it comes from) unless private items were requested, and no segment of the module it comes from is `__future__` or `typing`. This holds for functions, classes, properties, type variables, submodules, preludes, the origin of every re-export and automatically added dependencies; the only exception is that a class always keeps its `__init__` and `__call__`.",
 ["inputs", "configurations"], "every Python module (any attribute names and origins) and every Config",
 "Tests bind three tiny modules under the default configuration and contain no private, blocklisted, typing- or __future__-originated member, and no non-default Config.",
 ["config.rs", "syntax/module.rs", "syntax/class.rs", "codegen.rs"],
 [("admission predicate", E+"config.rs Config::is_attr_allowed"), ("module member pipeline", E+"syntax/module.rs Module::parse"),
  ("submodule listing", E+"syntax/module.rs Module::extract_submodules"), ("class member pipeline", E+"syntax/class.rs Class::parse"), ("dependencies", E+"codegen.rs Codegen::parse_dependencies")],
 ["members of the TokenStream returned by Codegen::generate"])

prop("C02", "Each generation switch controls exactly its own kind of output",
 "Turning off a switch of the configuration (imports, preludes, classes, type variables, functions, properties, submodules, docs) removes exactly that kind of item from the generated code and nothing else; with a switch on, every parsed member of that kind of a module is emitted. The switches select members of modules: the methods and properties of a class belong to the class, and the modules that lead to a requested submodule are always present. Documentation attributes appear only when docs are enabled and carry the docstring of the item they are attached to.",
 ["configurations", "inputs"], "every combination of Config switches, every parsed module tree",
 "No test uses a non-default Config, and each of the doc-emitting templates is reached by at most one test.",
 ["config.rs", "syntax/module.rs", "syntax/class.rs", "syntax/function.rs", "syntax/property.rs"],
 [("section gates", E+"syntax/module.rs Module::generate"), ("doc gates", E+"syntax/{module,class,function,property}.rs generate*")],
 ["TokenStream returned by Codegen::generate"])

prop("C03", "Merging duplicate modules loses no member",
 "When the same module is reached more than once (requested twice, through different parents, or as the placeholder parent of a dotted request), the merged module contains the union of the preludes, imports, submodules, classes, type variables, functions and properties of all copies, recursively, and each module name appears exactly once per level.",
 ["inputs", "histories"], "every sequence of modules added to a Codegen, any overlap between their trees",
 "No test adds two overlapping modules and inspects the result; a field left out of the merge is silently taken from the first copy.",
 ["codegen.rs"], [("merge", E+"codegen.rs Codegen::merge_duplicate_modules"), ("struct update from first copy", E+"codegen.rs merge_duplicate_submodules_recursive")],
 ["TokenStream returned by Codegen::generate"])

prop("C04", "Python stdout/stderr are redirected only while parsing, then restored",
 "While a module is being parsed, Python's stdout (stderr) is redirected if and only if the configuration asks to suppress stdout (stderr); when parsing ends, with success or with an error, both streams are the very objects they were before.",
 ["fault_sequences", "configurations"], "every outcome (success or error) of parsing, every combination of the two suppression flags, every entry point that parses a module",
 "No test looks at sys.stdout/sys.stderr after a call, makes parsing fail, or changes the flags.",
 ["utils/io.rs", "codegen.rs"], [("save/replace/restore", E+"utils/io.rs with_suppressed_python_output"), ("callers", E+"codegen.rs Codegen::module, Codegen::parse_dependencies")],
 ["sys.stdout / sys.stderr of the embedding interpreter"])

prop("C05", "Introspecting an importable module never panics",
 "Adding an importable Python module and generating its bindings never panics: whatever attributes, signatures, annotation strings or exceptions the introspected objects present, the outcome is either bindings (possibly with members skipped) or an error value.",
 ["inputs", "fault_sequences"], "every Python object graph reachable from an importable module: every attribute, signature, annotation, and every Python call that raises",
 "README promises it; tests use three well-behaved modules, while the panics need odd signatures, malformed annotations or raising descriptors.",
 ["typing/from_py.rs", "typing/into_rs.rs", "syntax/function.rs", "syntax/property.rs", "syntax/module.rs", "syntax/class.rs", "syntax/import.rs", "codegen.rs"],
 [("fallible conversions use ? / if let / unwrap_or", E+"**"), ("unreachable! only behind a dominating test", E+"typing/from_py.rs Type::from_str")],
 ["process aborts / unwinds out of Codegen methods"])

prop("C06", "A failed import, parse, generation or write is reported as an error",
 "If a requested module cannot be imported or parsed, if no module was requested, if code generation fails, or if the output file cannot be written, the corresponding engine call returns an error; it never returns success with that module or output silently missing. Only the documented best-effort steps (unreadable attributes, unimportable submodules, submodules hidden by an attribute of the same name, dependencies and parent packages that cannot be imported, missing signatures) are skipped.",
 ["fault_sequences"], "every fallible step failing, one at a time, in every public engine call",
 "Tests only take success paths.",
 ["codegen.rs", "syntax/module.rs", "syntax/class.rs", "utils/error.rs"],
 [("? propagation", E+"codegen.rs, "+E+"syntax/*.rs"), ("empty request rejected", E+"codegen.rs Codegen::generate")],
 ["Result of Codegen::{module,module_name,module_from_str,modules,module_names,generate,build}"])

prop("C07", "The Python interpreter is initialised before it is used",
 "Every public entry point that may be the first to touch Python (adding modules by name or from source in the engine, and the in-place import macro) initialises the interpreter before acquiring the GIL; entry points that do not initialise it acquire the GIL only once a module is present, which implies an initialised interpreter. The macro additionally loads the libpython symbols globally before it imports any module.",
 ["histories"], "every order of public calls in a fresh process without pyo3's auto-initialize feature",
 "Test builds unify features with the examples, which enable pyo3/auto-initialize, so a missing initialisation is invisible to them.",
 ["codegen.rs", "pyo3_bindgen_macros/src/lib.rs", "pyo3_bindgen_macros/src/utils.rs"],
 [("prepare_freethreaded_python before with_gil", E+"codegen.rs Codegen::module_name, module_from_str"), ("empty check before with_gil", E+"codegen.rs Codegen::generate"), ("dlopen RTLD_GLOBAL", "pyo3_bindgen_macros/src/utils.rs")],
 ["panic/abort in Python::with_gil of a process that has not initialised Python"])

prop("C08", "Python is always addressed by Python names, Rust by Rust names",
 "Every name passed to the Python interpreter, at generation time or from the generated code (module import, attribute lookup, method call, keyword name, registration in sys.modules), is the original Python name; every identifier placed in the generated code is its Rust spelling, with Rust keywords escaped as raw identifiers. Conversely, escaping a Python name and reading it back yields the original name.",
 ["inputs"], "every Python name, in particular Rust keywords, at every use site",
 "Unit tests cover Ident/Path conversions on one keyword each; no test binds a module, class, function, parameter or property whose name is a Rust keyword.",
 ["syntax/common/ident.rs", "syntax/common/path.rs", "syntax/module.rs", "syntax/class.rs", "syntax/function.rs", "syntax/property.rs", "codegen.rs"],
 [("escape / unescape", E+"syntax/common/ident.rs Ident::{from_py,as_py,as_rs}"), ("dotted paths", E+"syntax/common/path.rs Path::{to_py,to_rs,import_quote}")],
 ["string literals and identifiers of the generated code; arguments of getattr/import"])

prop("C09", "Every argument of a binding reaches the Python callable in its own channel",
 "For every Python signature, the generated function takes one Rust parameter per Python parameter, in declaration order, and forwards each exactly once: positional-only and positional-or-keyword parameters positionally and in order, variadic positional arguments appended after them, keyword-only parameters by keyword under their own Python name, and variadic keyword arguments as keywords. The bound receiver (the first positional parameter of an instance method, constructor or `__call__`) is the only parameter that is not forwarded. A variadic keyword argument of `None` passes no extra keywords. A callable without an introspectable signature, and one with a stray parameter called `self`, falls back to `*args, **kwargs`. The generated function returns the converted result of that call; a failing Python operation is returned as an error, never hidden.",
 ["inputs"], "every sequence of parameter kinds, for functions, methods of every kind, constructors and callables",
 "Tests cover one positional parameter, one constructor and one **kwargs; keyword-only, *args and mixed signatures are untested.",
 ["syntax/function.rs"], [("kind decoding", E+"syntax/function.rs ParameterKind::from"), ("argument templates", E+"syntax/function.rs Function::generate"), ("receiver removal", E+"syntax/function.rs Function::parse")],
 ["body of every generated function"])

prop("C10", "Every callable binding targets the Python object it was made from",
 "A generated module-level function calls the attribute of its own name on its own module; an instance method calls the attribute of its own name on the receiver; class and static methods call it on their class; a constructor calls the class itself and returns an instance of it; a `__call__` binding calls the receiver itself. A constructor or call on a submodule imports the longest prefix of its path that can be imported and only looks up the rest as attributes. Class methods and static methods are told apart from instance methods by how the class (or the base class it inherits them from) defines them; only when that definition cannot be found does the name of the first parameter decide.",
 ["inputs"], "every function and method kind, every owner path",
 "Tests contain a module function, one constructor and one instance method; static, class and callable methods are untested.",
 ["syntax/function.rs", "syntax/class.rs", "syntax/common/path.rs"],
 [("dispatcher selection", E+"syntax/function.rs Function::generate"), ("method type inference", E+"syntax/function.rs Function::parse"), ("path to import/getattr chain", E+"syntax/common/path.rs Path::import_quote")],
 ["body of every generated function"])

prop("C11", "Property accessors read and write the attribute they are named for",
 "A generated getter reads, and a generated setter writes, the attribute of that very Python name on its owner (module or instance). A setter exists for every module attribute and for exactly those class properties that define a Python setter; the getter is typed and documented from the Python getter and the setter from the parameter and the documentation of the Python setter (each accessor without documentation takes that of the other).",
 ["inputs"], "every module attribute and class property (with/without setter, with/without annotations and docstrings)",
 "One property with identical getter and setter types is tested.",
 ["syntax/property.rs"], [("accessor templates", E+"syntax/property.rs generate_getter/generate_setter"), ("fget/fset inspection", E+"syntax/property.rs Property::parse")],
 ["generated accessor functions"])

prop("C12", "Generated code type-checks for every type mapping, kind and position",
 "For every type the engine can map, in every position it can occur (parameter of any kind, return value, getter, setter, nested in a container or optional) and for every kind of function, the generated item compiles against pyo3; the trait declaration and implementation of a class always agree.",
 ["inputs"], "every mapped type and every nesting up to depth two, in every position, for every function/method kind and signature shape",
 "README promises compilable bindings; the tests compare text for four parameter types and never compile the generated code.",
 ["typing/into_rs.rs", "typing/mod.rs", "syntax/function.rs", "syntax/property.rs", "syntax/class.rs"],
 [("owned/borrowed/preprocess agreement", E+"typing/into_rs.rs"), ("hashability", E+"typing/mod.rs Type::is_hashable"), ("templates", E+"syntax/{function,property,class}.rs")],
 ["rustc on the generated code"])

prop("C13", "Each Python type maps to its Rust counterpart, however it is spelled",
 "Each supported Python type maps to the one corresponding Rust type (int to i64, float to f64, bool to bool, str to String/&str, bytes to Vec<u8>/&[u8], lists to vectors/slices, tuples to tuples, sets and dicts with hashable elements to HashSet/HashMap, Optional to Option, datetime and other pyo3 native types to their pyo3 wrappers), whether it is given as a type object, a typing construct or a supported annotation string; unknown types and unrecognised spellings map to the generic Python object. A more specific Python type is never shadowed by its base class.",
 ["inputs"], "every supported type in each of its spellings",
 "Tests use str, int, float and Dict[str,int] in one spelling each.",
 ["typing/from_py.rs", "typing/into_rs.rs", "typing/mod.rs"],
 [("type objects", E+"typing/from_py.rs TryFrom<PyType>"), ("strings", E+"typing/from_py.rs from_str"), ("typing", E+"typing/from_py.rs from_typing"), ("rust side", E+"typing/into_rs.rs into_rs")],
 ["types in generated signatures"])

prop("C14", "Generation is deterministic",
 "For the same Python modules and the same configuration the generated code is identical on every run and in every process: no random state, time, environment, address or thread identity influences it, and hash-ordered collections whose order reaches the output use a fixed hash function. Documentation is taken from Python only if it is a string.",
 ["inputs", "histories"], "all runs and processes",
 "A test run in one process compares one output once; randomised iteration order shows only between runs on modules with several members.",
 ["codegen.rs", "syntax/module.rs", "syntax/class.rs", "typing/into_rs.rs"],
 [("rustc_hash instead of RandomState", E+"codegen.rs, "+E+"syntax/module.rs")], ["TokenStream returned by Codegen::generate"])

prop("C15", "The CLI emits the bindings of all requested modules to one destination only",
 "The CLI generates bindings for every module name given and writes exactly the formatted bindings either to the requested output file, creating its directory first, or, when no output file was given, to standard output; nothing else is ever written to standard output by the CLI, the engine or the macros, diagnostics go to standard error, and any failure ends the process unsuccessfully.",
 ["inputs", "fault_sequences", "configurations"], "every command line and every failure of generation or I/O",
 "CLI tests only check the exit status for two modules, never the output, the -o option or a failure.",
 ["pyo3_bindgen_cli/src/main.rs", "codegen.rs"], [("destination selection", "pyo3_bindgen_cli/src/main.rs main"), ("diagnostics via eprintln!", E+"**")],
 ["stdout, output file and exit status of the CLI"])

prop("C16", "Embedded source code is delivered under the module's own name",
 "Bindings generated from source code contain exactly that source code and, when asked to embed it, register it in the interpreter under the Python name the module was given, which is the name all its bindings import; modules that were not given as source code carry no embedding function.",
 ["inputs"], "every source text and module name given to module_from_str, alone or with other modules",
 "Tests embed single modules whose name is identical in Python and Rust spelling.",
 ["codegen.rs", "syntax/module.rs"], [("source map keyed by name", E+"codegen.rs Codegen::module_from_str/generate"), ("embedding template", E+"syntax/module.rs Module::generate")],
 ["pyo3_embed_python_source_code in the generated code"])

prop("C17", "A dotted module request is nested under all of its parents",
 "The bindings of a module `a.b.c` always appear as `a::b::c`: after generation no submodule remains at the top level, every missing parent is created as a module of its own name, and the requested module keeps all its content, including its documentation.",
 ["inputs"], "every dotted name and every set of requested modules",
 "Only a documentation test with two sibling submodules exists and it does not look at the output.",
 ["codegen.rs", "syntax/module.rs"], [("parent fold", E+"codegen.rs Codegen::canonicalize"), ("placeholder parents", E+"syntax/module.rs Module::empty")],
 ["module tree of the generated code"])

prop("C18", "Generated names never clash with functions or reserved names of their scope",
 "A property accessor never takes the name of a function or method of the same scope, nor a reserved name: the getter falls back to a `get_` name and is left out if that is taken too, and a setter whose name is taken is left out. Constructors and callables take the first free of `new`, `new1`, ... and `call`, `call1`, ...; functions with reserved names are not emitted. Function, class, property, type-variable and import names that are not valid Rust identifiers are sanitised or skipped; a module with such a name is an error.",
 ["inputs"], "every set of function, method and property names in one scope",
 "Tests contain no clash, no reserved name and no invalid identifier.",
 ["syntax/property.rs", "syntax/function.rs", "syntax/class.rs", "syntax/module.rs", "config.rs"],
 [("scoped idents", E+"syntax/{module,class}.rs"), ("fallback names", E+"syntax/property.rs, "+E+"syntax/function.rs"), ("reserved names", E+"config.rs FORBIDDEN_FUNCTION_NAMES")],
 ["item names in the generated code"])

prop("C19", "References between generated modules resolve to the intended item",
 "A type reference or re-export written in one generated module and pointing at an item of the module tree resolves, by Rust's path rules from where it is written, to exactly that item; re-exports are emitted only for items re-exported from within the module's own subtree, under the name Python gives them.",
 ["inputs"], "every pair of source module and target item in a module tree",
 "Path resolution between different modules is not exercised by any test.",
 ["syntax/common/path.rs", "syntax/import.rs", "syntax/module.rs"],
 [("relative path", E+"syntax/common/path.rs Path::relative_to"), ("classification", E+"syntax/import.rs ImportType::from_paths"), ("local type map", E+"syntax/module.rs Module::generate")],
 ["use declarations and type paths of the generated code"])

prop("C20", "Values survive the Rust-Python-Rust round trip",
 "A value passed through a generated binding arrives in Python as an equal value of the mapped type, and a returned Python value is converted to an equal Rust value or reported as an error.",
 ["inputs"], "every value of every mapped type",
 "Quantifies over all runtime values.",
 ["typing/into_rs.rs"], [("pyo3 conversions", "pyo3 ToPyObject/FromPyObject")], ["generated bindings at run time"])

prop("C21", "Docstrings are rendered without loss of text",
 "The documentation of a generated item contains the words of the Python docstring in order, with only whitespace, duplicate backticks and trailing slashes normalised, and never forms a doctest or breaks the generated code.",
 ["inputs"], "every docstring",
 "Only one-line docstrings are tested.",
 ["utils/text.rs"], [("format_docstring", E+"utils/text.rs")], ["doc attributes of the generated code"])

prop("C22", "The traversal of modules ends and visits no module in the place of another",
 "While a module is parsed, its submodules are visited only under their own names: what is found in the place of a submodule but bears the name of another module (of the visited module itself, of one above it, beside it or outside of it) is not descended into, so that parsing ends for every module graph and no module is generated in the place of another; modules that dependencies of several imports come from are each parsed once.",
 ["inputs"], "every importable module graph, including submodules replaced by aliases in sys.modules and cyclic imports; every set of external imports", "No test has a submodule that is an alias, a cyclic module graph, or two imports from one dependency.",
 ["syntax/module.rs", "codegen.rs"], [("submodule recursion", E+"syntax/module.rs Module::parse"), ("dependencies", E+"codegen.rs Codegen::parse_dependencies")], ["modules of the generated bindings", "termination of Codegen methods"])

prop("C23", "Every generated item carries the docstring of its own Python object",
 "With documentation enabled, the documentation of a generated module, class, function, method or property accessor is the docstring of the very Python object it was generated from (of the getter or setter function for an accessor, each falling back to the other), also after modules were merged, and is absent if and only if that object has no non-empty string as its docstring; it is attached to that item and to no other, and nothing is documented while documentation is disabled.",
 ["inputs", "configurations"], "every Python object with or without a docstring, every kind of item, every set of requested modules",
 "Tests compare the documentation of three functions and one class; never of modules, properties, merged modules, or of objects whose __doc__ is no string.",
 ["utils/python.rs", "syntax/module.rs", "syntax/class.rs", "syntax/function.rs", "syntax/property.rs", "codegen.rs"],
 [("docstring lookup", E+"utils/python.rs docstring"), ("parsers", E+"syntax/{module,class,function,property}.rs parse"), ("merging", E+"codegen.rs merge_duplicate_modules"), ("attachment", E+"syntax/*.rs generate")],
 ["doc attributes of the generated code"])

prop("C24", "An exception raised by Python in a binding reaches its caller unchanged",
 "Every generated function, method, constructor, call, property accessor and embedding function returns an error exactly when one of the Python operations it performs (import, attribute access, call, keyword assignment, conversion of the result) fails: the error is the very exception of that operation, nothing further is called, assigned or imported after it, and no failure panics, is ignored or is retried; when nothing fails it returns Ok.",
 ["inputs", "fault_sequences"], "every kind of callable and accessor, every parameter list, every Python operation that fails at run time", "Tests compare the text of a few bindings and never run one that fails.",
 ["syntax/function.rs", "syntax/property.rs", "syntax/common/path.rs", "syntax/module.rs"],
 [("bodies of callables", E+"syntax/function.rs Function::generate"), ("bodies of accessors", E+"syntax/property.rs generate_getter, generate_setter"), ("imports", E+"syntax/common/path.rs import_quote"), ("embedded source", E+"syntax/module.rs Module::generate")], ["results of the generated bindings at run time"])

prop("C25", "The import macro expands to the bindings of its module, or fails to compile",
 "`import_python!` takes a string literal and expands to exactly what the engine generates, with its default configuration, for exactly the one module of that very name; an argument that is no string literal, a module that cannot be imported or parsed, and a failing generation are compile errors, never an empty or partial expansion; failing to find or load libpython alone is not an error.",
 ["inputs", "fault_sequences"], "every argument of the macro, every step of it that fails", "The macro is only tested with one or two modules that can be imported.",
 ["pyo3_bindgen_macros/src/lib.rs", "pyo3_bindgen_macros/src/parser.rs", "pyo3_bindgen_macros/src/utils.rs"], [("macro", "pyo3_bindgen_macros/src/lib.rs import_python"), ("arguments", "pyo3_bindgen_macros/src/parser.rs Args"), ("libpython", "pyo3_bindgen_macros/src/utils.rs try_load_libpython_symbols")], ["expansion of the macro"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
