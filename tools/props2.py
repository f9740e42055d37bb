# More properties (see props.py).

N2 = ("Random exploration under AddressSanitizer; counts in the evidence file. ")
STATEFUL = "stateful property-based testing against a model, with shrinking"

prop("C15", "A virtual_ptr pairs an object with its dynamic class's v-table",
     "After any sequence of constructions, assignments, moves, swaps, casts and resets, from "
     "references, plain and smart pointers and other virtual_ptrs, a virtual_ptr designates the "
     "object it was last given, at the address of the right base, and holds the v-table pointer "
     "of that object's dynamic class; or both pointers are null. Comparison is by object; "
     "conversions are allowed exactly as documented; an operation that fails changes nothing.",
     ["histories", "inputs", "configurations"],
     "all sequences of operations on virtual_ptrs to all classes of a hierarchy with multiple "
     "and virtual inheritance, in registries with and without indirection, hashing and rtti",
     "The tests check each constructor and assignment once, starting from fresh pointers to "
     "objects whose bases share their address.",
     ["core.hpp", "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp",
      "interop/boost_intrusive_ptr.hpp", "preamble.hpp"],
     [("constructors and assignments", "core.hpp (virtual_ptr)"),
      ("acquisition of the v-table pointer", "core.hpp (acquire_vptr, box_vptr)"),
      ("casts", "core.hpp (virtual_ptr::cast), interop/*.hpp")],
     N2 + "Two families of seven classes, fifteen pointer types, seven registries; the model is "
     "an object number per pointer.", STATEFUL,
     observe=["virtual_ptr::get", "virtual_ptr::vptr", "operator==", "method calls"])

prop("C17", "Smart virtual_ptrs own objects exactly as the pointers they wrap",
     "Copying a smart virtual_ptr adds an owner, moving transfers ownership and leaves null, "
     "casting and passing to a method (by value, by reference, or moved) never adds or loses an "
     "owner once done. An object is destroyed exactly once, when its last owner goes, with the "
     "right use count at any time, and an overrider can keep an argument it owns.",
     ["histories", "inputs"],
     "all sequences of operations and calls on shared, unique and intrusive virtual_ptrs and "
     "smart pointers",
     "The tests look at null-ness after single moves; leaks and double owners appear in "
     "combinations of casts, calls and assignments.",
     ["interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp",
      "interop/boost_intrusive_ptr.hpp", "core.hpp"],
     [("casts of owners", "interop/*.hpp (virtual_traits::cast)"),
      ("moves", "core.hpp (virtual_ptr for smart pointers)"),
      ("argument passing", "core.hpp (method::thunk)")],
     N2 + "Same machine as C15, weighted towards owners and calls.", STATEFUL,
     observe=["destruction of objects", "use counts"])

prop("C12", "Type ids are hashed perfectly, or the failure is reported",
     "After initialization with hashing, the hash values of all the registered type ids, "
     "aliases included, are different and within the range the hash reports, so that every "
     "registered object finds the v-table of its own class; if no such hash is found, this is "
     "reported and a later initialization with other classes works. With runtime checks any "
     "other id is reported, also those registered in earlier initializations only. Sets of ids "
     "of ordinary size and shape are always hashed.",
     ["inputs", "histories"],
     "all sets of type ids given to classes, with aliases, in sequences of initializations",
     "The tests hash the few dozen type_info addresses of one executable, which are alike "
     "from run to run; other address layouts and custom ids are never tried.",
     ["policies/fast_perfect_hash.hpp", "policies/vptr_vector.hpp"],
     [("search of the factors", "policies/fast_perfect_hash.hpp (initialize)"),
      ("check of an id", "policies/fast_perfect_hash.hpp (check)"),
      ("storage of v-table pointers", "policies/vptr_vector.hpp (initialize)")],
     N2 + "Up to 140 ids at a time.", "property-based testing against an invariant "
     "(injectivity, range) and a model of the lookup",
     observe=["type_hash::initialize", "type_hash::hash", "vptr::dynamic_vptr", "calls"])

prop("C18", "Embedded v-table pointers follow the life of the object",
     "An object with an embedded v-table pointer always dispatches as its current dynamic "
     "class, through each of its bases: in the constructors and destructors as the class under "
     "construction or destruction, then as its complete class; copying, moving, slicing, "
     "assigning or swapping it, in full or by a base, and constructors that throw, never change "
     "which class an object dispatches as. With indirect v-table pointers this continues to "
     "hold after other initializations.",
     ["histories", "programs"],
     "all histories of creation, copy, assignment and destruction, in hierarchies with single "
     "and multiple inheritance",
     "The tests construct and destroy one object of each class; copies, slices, base "
     "assignments and exceptions interact with the order of the bases.",
     ["inplace_vptr.hpp", "core.hpp"],
     [("construction and destruction", "inplace_vptr.hpp (inplace_vptr_base, inplace_vptr_derived)"),
      ("all the bases", "inplace_vptr.hpp (boost_openmethod_update_vptr)"),
      ("acquisition", "core.hpp (acquire_vptr)")],
     N2 + "14 classes with up to three roots, seven registries.", STATEFUL,
     observe=["method calls", "virtual_ptr::vptr"])

prop("C14", "An error reaches its registry's handler once, and nothing runs past it",
     "Every error is passed once, with its details, to the handler of the registry it occurs in "
     "and to no other, before any overrider of the failed call runs. If the handler throws, the "
     "exception reaches the caller and the registry works as before. If the handler returns, or "
     "there is none, the program is aborted. The default handler calls the function that was set "
     "last, or writes one line describing the error to the registry's output, if it has one; "
     "setting a function returns the previous one; what throw_error_handler throws can be "
     "caught as the error and as a runtime_error describing it.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of operations, some of them errors of any kind, in registries with each "
     "kind of error handling and handlers that throw, return, exit or call methods",
     "The tests use one throwing function at a time, and no test observes an abort.",
     ["core.hpp", "preamble.hpp", "initialize.hpp", "policies/default_error_handler.hpp",
      "policies/throw_error_handler.hpp"],
     [("default handler", "policies/default_error_handler.hpp (error, set, default_handler)"),
      ("throwing handler", "policies/throw_error_handler.hpp (error)"),
      ("error sites", "core.hpp, initialize.hpp, preamble.hpp, policies/*.hpp")],
     N2 + "Seven classes, seven methods, eleven registries; hash search failures are left to C12. "
     "Fatal errors happen in a child process, whose end is observed.",
     "stateful property-based testing with injected errors against a model of the protocol",
     observe=["handler calls", "exceptions", "end of the process", "output"])

prop("C19", "Registries are isolated from each other",
     "Registries that coexist in a program, with the same or different classes, are independent: "
     "registering, initializing, failing to initialize, finalizing or calling methods in one "
     "never changes the outcome of calls, the errors or the virtual pointers of the others, nor "
     "calls their error handlers or writes to their outputs.",
     ["histories", "configurations"],
     "all interleavings of operations on several registries",
     "The tests use several registries in one executable, but one after the other.",
     ["preamble.hpp", "core.hpp", "initialize.hpp", "policies/vptr_vector.hpp",
      "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp"],
     [("static data of registries", "preamble.hpp (registry)"),
      ("static data of policies", "policies/*.hpp (fn)"),
      ("static data of methods", "core.hpp (method)")],
     N1 + "Two to four registries at a time among eight.",
     "stateful property-based testing: interleaved histories, each registry against its own model",
     observe=["method calls", "virtual_ptr::vptr", "error handlers", "outputs"])

prop("C16", "Arguments, results and exceptions pass through a call unchanged",
     "An overrider receives exactly the caller's arguments: the same objects for references, "
     "pointers and smart pointers, each virtual one adjusted to the base or derived class it "
     "declares, with the v-table of the object's class; values are copied or moved no more than "
     "in a call through a function pointer; nothing is moved from or destroyed unless the "
     "overrider took it. Its result, or a covariant one converted to the method's type, and its "
     "exceptions reach the caller. The same holds between an overrider and its next one.",
     ["programs", "inputs", "configurations"],
     "all methods with any mix of kinds of parameters and results, all hierarchies with multiple "
     "and virtual inheritance, any way of passing the arguments",
     "A few signatures are tested, mostly with bases at offset zero and plain results; "
     "forwarding and casting depend on the combination of types.",
     ["core.hpp", "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp",
      "interop/boost_intrusive_ptr.hpp", "macros.hpp"],
     [("forwarding", "core.hpp (method::operator(), method::fn)"),
      ("casts of arguments", "core.hpp (method::thunk, virtual_traits, optimal_cast)"),
      ("casts of smart pointers", "interop/*.hpp (virtual_traits::cast)")],
     "Random exploration: C++ programs generated, compiled with clang and g++ in C++17 and "
     "C++20, with AddressSanitizer or UndefinedBehaviorSanitizer, and run. 20 kinds of virtual "
     "parameters, 29 others, 17 of results, seven registries.",
     "property-based testing: generated programs with an oracle by construction, shrinking",
     observe=["arguments in overriders", "results", "use counts", "exceptions"])

prop("C22", "Macros attach every overrider to the method its signature designates",
     "An overrider written with the macros is added, once, to the method that C++ name lookup "
     "and overload resolution find for its parameters from its namespace, also when it is "
     "declared, or defined inline, in headers included by several translation units. Calls by "
     "name, by BOOST_OPENMETHOD_TYPE, directly to an overrider, and next and has_next, run "
     "accordingly. Classes may be registered in any file, several times, and be local to one. "
     "Files that define the default registry differently are reported when initializing.",
     ["programs", "configurations"],
     "all programs made of several files, namespaces, methods with the same name, and "
     "registries, with any link order",
     "The tests and examples are single files, with one method of a name; the examples with "
     "several files are fixed.",
     ["macros.hpp", "core.hpp", "default_registry.hpp", "preamble.hpp"],
     [("location of the method", "macros.hpp (BOOST_OPENMETHOD_GUIDE, "
       "BOOST_OPENMETHOD_DETAIL_LOCATE_METHOD)"),
      ("registration", "core.hpp (method::override_impl, use_classes), detail/static_list.hpp"),
      ("inconsistent definitions", "preamble.hpp (odr_check)")],
     "Random exploration: programs of two to four files generated, built and run; the generator "
     "models name lookup. g++ is used for one program in ten; two limits of compilers are "
     "avoided (see DESIGN.md).",
     "property-based testing: generated multi-file programs against a model of name lookup and "
     "dispatch, shrinking",
     observe=["overriders run", "has_next", "calls of overriders"])

prop("C23", "Shared libraries join and leave a registry completely",
     "A library that is loaded, followed by initialize, brings its classes, methods and "
     "overriders to the registry it shares with the executable and other libraries; unloading it, "
     "followed by initialize, takes exactly these away. Objects made in any module dispatch the "
     "same from any other, also after libraries that shared their class are gone; with "
     "indirect_vptr, virtual_ptrs stay valid across initializations. Registries of a library's "
     "own are not affected.",
     ["histories", "programs", "configurations"],
     "all sequences of loading, unloading and initializing any number of libraries, in any order, "
     "with any distribution of classes, methods and overriders",
     "One example loads one library once; the failures depend on what else was loaded, in what "
     "order it goes away, and on classes registered in several modules.",
     ["initialize.hpp", "core.hpp", "preamble.hpp", "detail/static_list.hpp",
      "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp"],
     [("unregistration", "core.hpp, preamble.hpp (destructors of registrations)"),
      ("collection at initialization", "initialize.hpp (augment_classes, augment_methods)"),
      ("indirection", "initialize.hpp (write_global_data), policies/vptr_vector.hpp")],
     "Random exploration: real shared libraries, generated, built with clang and "
     "AddressSanitizer or with g++, loaded with RTLD_LOCAL or RTLD_GLOBAL; histories are "
     "checked against a model after each step.",
     "property-based testing: stateful histories over generated shared libraries against a "
     "reference model, shrinking",
     observe=["overriders run", "errors", "virtual_ptrs kept across loads"])

prop("C21", "A registry uses exactly the policies it was given",
     "Any chain of with and without gives a registry with the policies documented: each new "
     "policy replaces the one of its category or is added, each category named is removed, the "
     "rest is unchanged. policy, the aliases and has_ flags of the registry agree, and it runs "
     "accordingly: v-table pointers, hashes, type information, errors and output go through its "
     "own policies, of the library or of the user, and through no other; they are initialized "
     "with all the registered classes and the options given, and finalized, once each time.",
     ["programs", "configurations"],
     "all sequences of with and without over policies and categories of the library and of the "
     "user, starting from any registry",
     "The tests derive three registries with one policy replaced; the outcome depends on "
     "combinations of policies and operations.",
     ["preamble.hpp", "default_registry.hpp", "initialize.hpp", "core.hpp",
      "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp",
      "policies/default_error_handler.hpp", "policies/throw_error_handler.hpp"],
     [("with and without", "preamble.hpp (with_aux, without_aux)"),
      ("selection of a policy", "preamble.hpp (get_policy_aux, registry::policy)"),
      ("calls of policies", "initialize.hpp (write_global_data, finalize)")],
     "Random exploration: C++ programs generated from chains of operations, compared with a "
     "model of the policy lists at compile time and used at run time.",
     "property-based testing: generated policy algebra against a reference model, shrinking",
     observe=["registry::policy", "registry::policy_list", "use of policies at run time"])

prop("C24", "Calls from several threads need no synchronization",
     "Once a registry is initialized, any number of threads may call its methods, use next, "
     "make, copy, cast and dereference virtual_ptrs and inplace v-table pointers, and get errors "
     "reported, on the same objects and at the same time, without a data race, and with the "
     "results the same calls give alone; also while other threads initialize, use and finalize "
     "other registries.",
     ["schedules", "histories", "configurations"],
     "all schedules of any number of threads over all kinds of calls, objects and registries",
     "The tests have one thread.",
     ["core.hpp", "preamble.hpp", "initialize.hpp", "inplace_vptr.hpp",
      "policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp",
      "policies/default_error_handler.hpp", "policies/throw_error_handler.hpp",
      "interop/std_shared_ptr.hpp", "interop/std_unique_ptr.hpp"],
     [("resolution of calls", "core.hpp (method::resolve, thunk, virtual_ptr)"),
      ("state of policies", "policies/*.hpp (dynamic_vptr, hash, error)"),
      ("separation of registries", "preamble.hpp (registry::initialized, classes, methods)")],
     "Random exploration with ThreadSanitizer, which finds a race between two accesses even when "
     "the schedule runs them apart; eight registries, sixteen kinds of operations, two to four "
     "threads. Objects and handlers of the user are not modified.",
     "property-based testing: generated concurrent histories under ThreadSanitizer, differential "
     "against the same operations alone, shrinking",
     observe=["data races", "results of calls"])

prop("C25", "Ill-typed methods, overriders, calls and conversions do not compile",
     "A definition is rejected at compile time if the overrider cannot override the method: "
     "number of parameters, kind, category or registry of a parameter, class that is not an "
     "accessible unambiguous base, non-virtual parameter or result of another type; if the method "
     "has no virtual parameter, one that is not polymorphic and has no v-table pointer, or one of "
     "another registry; if the macros find no method; if registered classes have private or "
     "repeated bases; if an argument does not match its parameter. virtual_ptrs convert exactly "
     "where pointers of the same kind do, in the same registry, and from objects whose v-table "
     "pointer can be found. The same definitions without the mistake compile, with the headers "
     "included in any order, and each of these compiles by itself.",
     ["inputs", "programs", "configurations"],
     "all definitions of methods, overriders and calls, conversions, lists of classes and "
     "embedded v-table pointers, correct or with one mistake",
     "The tests compile ten ill-formed files, with no control that the mistake is what is rejected.",
     ["core.hpp", "macros.hpp", "inplace_vptr.hpp", "preamble.hpp", "interop/std_shared_ptr.hpp",
      "interop/std_unique_ptr.hpp", "interop/boost_intrusive_ptr.hpp", "policies/static_rtti.hpp"],
     [("methods and overriders", "core.hpp (validate_method_parameter, "
       "validate_overrider_parameter, method::override)"),
      ("conversions", "core.hpp (constructors and assignments of virtual_ptr)"),
      ("classes", "core.hpp (use_class_aux, is_base), inplace_vptr.hpp")],
     "Random exploration: generated definitions, compiled with clang++ and g++ as C++17 and "
     "C++20; an ill-formed one is always compared with its correct twin.",
     "property-based testing: generated well-formed and ill-formed programs against a typing "
     "model, metamorphic pairs, shrinking",
     observe=["outcome of compilation"])

prop("C26", "Dispatch takes constant time and looks up each v-table once",
     "With v-table pointers in a vector, hashed or not, a call reads memory as many "
     "times whatever the classes, their hierarchy, the overriders and the other methods of the "
     "registry: only the method and the kind of its arguments count. So does, with any policy, a "
     "call through virtual_ptrs. The v-table of an object is looked up once for each virtual "
     "argument that is a reference or a plain or smart pointer, and once when a virtual_ptr is "
     "made from one of these; calls with virtual_ptrs, copying, moving, converting, casting and "
     "comparing them, making final ones, and `next` look nothing up.",
     ["inputs", "histories", "configurations"],
     "all hierarchies, methods, overriders, calls and sequences of operations on virtual_ptrs",
     "The documentation promises dispatch in constant time, but no test counts anything: a search "
     "in a call gives the same results.",
     ["core.hpp", "policies/vptr_vector.hpp", "policies/fast_perfect_hash.hpp",
      "policies/vptr_map.hpp", "inplace_vptr.hpp"],
     [("resolution of calls", "core.hpp (method::resolve, vptr, virtual_traits)"),
      ("constructors and casts of virtual_ptr", "core.hpp"),
      ("dynamic_vptr, hash", "policies/*.hpp")],
     "Random exploration: memory reads are counted by the compiler's instrumentation, as compared "
     "with the same call in a program of two classes (two more reads are allowed), and lookups by a "
     "policy of the registry that records them.",
     "property-based testing: generated programs and histories, metamorphic relation between the "
     "costs of a call, shrinking",
     observe=["number of memory reads in a call", "number of lookups"])

prop("C27", "The rtti system of a user is used as documented",
     "With an rtti policy that has the required functions and leaves out any of those that can be "
     "omitted, programs compile, and calls, `next`, virtual_ptrs and errors behave as with the "
     "standard one, whatever is the form of the type ids (small numbers, addresses, any value), "
     "whether classes are polymorphic for C++ or not, with multiple and virtual inheritance. A "
     "class known under several ids is the same class everywhere if type_index says so. Errors "
     "carry the ids of the objects, and errors and traces use the names given by type_name. With "
     "deferred_static_rtti no id is read before initialize.",
     ["programs", "configurations", "inputs"],
     "all rtti policies that meet the documented requirements, and all programs that use them",
     "The tests define a handful of rtti policies, each for one hierarchy, with one id per class "
     "and all the optional functions the program needs.",
     ["core.hpp", "preamble.hpp", "initialize.hpp", "policies/vptr_vector.hpp",
      "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp", "policies/static_rtti.hpp"],
     [("use of static_type, dynamic_type and type_index",
       "initialize.hpp (augment_classes, augment_methods), core.hpp (final_virtual_ptr, "
       "init_bad_call)"),
      ("casts", "core.hpp (optimal_cast)"),
      ("deferred ids", "preamble.hpp (deferred_static_rtti), core.hpp (resolve_type_ids)"),
      ("lookup of v-tables", "core.hpp (acquire_vptr), policies/*.hpp (dynamic_vptr)")],
     "Random exploration of generated programs. Smart pointers to classes with virtual bases "
     "that are not polymorphic for C++ are left out: their casts use std::dynamic_pointer_cast.",
     "property-based testing: generated programs whose results are known by construction, "
     "shrinking by removing parts",
     observe=["overrider executed", "address of the argument", "type ids and text of errors",
              "trace", "ids read before initialize"])
