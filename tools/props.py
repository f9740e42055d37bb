#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after an edit)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/boost/openmethod/"
P = []


def prop(id, title, statement, over, qtext, tests, files, mech, note,
         technique, state=(), observe=()):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
                  anchors=dict(files=[I + f for f in files],
                               state=[dict(name=n, meaning=m, where=I + w) for n, m, w in state],
                               mechanism=[dict(name=n, where=I + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)),
        note=note, technique=technique))


MODEL = ("property-based testing: generated programs (hierarchies, registrations, "
         "methods) against a brute-force reference model, integrated shrinking")
N1 = ("Random exploration under AddressSanitizer; counts in the evidence file. "
      "Trusts the reference model (h1/model.hpp, about 100 lines written from the "
      "documentation) and the table-driven rtti policy of the harness. ")

prop("C01", "A call runs the one most specialised applicable overrider",
     "Whenever one overrider among those applicable to the dynamic types of the "
     "virtual arguments is dominated by no other, while every other one is dominated, a "
     "call executes exactly that overrider, exactly once, on the caller's own objects and "
     "values. This holds for every class hierarchy, number and position of virtual "
     "parameters, and set of overriders.",
     ["programs", "inputs"],
     "all class hierarchies (including multiple and repeated inheritance), methods with "
     "any mix of virtual and non-virtual parameters, overrider sets and argument tuples",
     "The tests exercise a dozen fixed hierarchies with at most a few overriders; slot "
     "allocation, group masks, strides and dominance depend on the shape of the whole program.",
     ["initialize.hpp", "core.hpp"],
     [("slot allocation over the inheritance lattice", "initialize.hpp (assign_slots)"),
      ("applicability groups and dispatch table", "initialize.hpp (build_dispatch_table)"),
      ("dominance", "initialize.hpp (select_dominant_overriders)"),
      ("v-table walk at call time", "core.hpp (method::resolve*)")],
     N1 + "Up to 11 classes, 4 virtual parameters, 10 overriders per method.", MODEL,
     observe=["method call operator"])

prop("C02", "A call without a best overrider is reported exactly, nothing else runs",
     "If no overrider applies to the arguments the call reports a missing overrider, and if "
     "several apply and none beats all others it reports an ambiguity. The report is made "
     "exactly once, identifies the method, the number of virtual arguments and each one's "
     "dynamic type in order, and no overrider is executed.",
     ["programs", "inputs"],
     "all programs as above and all argument tuples without a unique best overrider",
     "The tests trigger two such errors, on a two-parameter method where every parameter "
     "is virtual and every argument has the same type.",
     ["core.hpp", "initialize.hpp", "preamble.hpp"],
     [("not-implemented and ambiguous stubs", "core.hpp (fn_not_implemented, fn_ambiguous)"),
      ("filling the error", "core.hpp (init_bad_call)"),
      ("choice of the stub for a table entry", "initialize.hpp (build_dispatch_table)")],
     N1, MODEL, observe=["error handler argument"])

prop("C03", "next continues with the next best overrider, has_next predicts it",
     "From within the overrider selected for some arguments, the next overrider is the one "
     "dispatch would select if that overrider did not exist; has_next is true exactly when "
     "there is one, and using next otherwise reports the same error a call would. Initializing "
     "again with other classes or methods brings next up to date.",
     ["programs", "inputs", "histories"],
     "all programs, all overriders selectable for some tuple, before and after re-initialization",
     "The tests call next in a handful of single-inheritance chains; which overriders remain "
     "after removing the selected one depends on the whole overrider set.",
     ["initialize.hpp", "core.hpp"],
     [("computation of the next overrider", "initialize.hpp (build_dispatch_table)"),
      ("next and has_next", "core.hpp (method::next, method::has_next)")],
     N1 + "Overriders whose correct next differs between tuples are a recorded finding; they "
     "are counted, and only required to have a next that is right for some tuple.", MODEL)

prop("C04", "Registration order, splitting, repetition and aliases do not matter",
     "Two registrations that state the same inheritance facts, methods and overriders give the "
     "same outcome for every call, the same next overriders and the same report, whatever the "
     "order of the registrations, the way classes and bases are distributed over them, "
     "repetitions and redundant bases, and whichever of the equivalent type ids of a class "
     "they use.",
     ["programs", "configurations"],
     "all pairs of equivalent registrations of all programs",
     "Registration order follows static construction order: any given test program exhibits one.",
     ["initialize.hpp", "core.hpp"],
     [("merging class records and computing bases", "initialize.hpp (augment_classes)"),
      ("type_index unification of type ids", "initialize.hpp (augment_classes)"),
      ("order-independent selection", "initialize.hpp (select_dominant_overriders)")],
     N1 + "Metamorphic: no trust in the model for the comparison itself.",
     "property-based metamorphic testing: the same generated program registered in two ways")

prop("C05", "Methods that share a hierarchy do not interfere",
     "Any number of methods on the same or overlapping hierarchies dispatch independently: "
     "adding or removing other methods, on any classes of the same lattice, never changes the "
     "outcome of a call to a method.",
     ["programs"],
     "all sets of methods over all hierarchies",
     "Interference comes from slot collisions and table offsets, that need several methods at "
     "particular places of a lattice; tests use one to three methods.",
     ["initialize.hpp"],
     [("slot reservation in trees and lattices", "initialize.hpp (assign_tree_slots, assign_lattice_slots)"),
      ("v-table layout", "initialize.hpp (write_global_data)")],
     N1 + "5 to 24 methods on up to 14 classes.", MODEL)

prop("C06", "N2216 resolution follows its rules and is reproducible",
     "With the n2216 option a call never reports an ambiguity: it runs the unique best "
     "overrider if there is one, else the one whose covariant return type is more specialised "
     "than all the others', else one of the best candidates. The choice is the same for every "
     "call and every initialization of the program, and calls with no applicable overrider are "
     "still errors.",
     ["programs", "inputs", "histories"],
     "all programs, with methods returning registered or unregistered classes, or values",
     "The tests have one hierarchy with two ambiguous overriders.",
     ["initialize.hpp"],
     [("second elimination round on return types", "initialize.hpp (select_dominant_overriders)")],
     N1, MODEL)

prop("C07", "The initialization report is exact",
     "The report returned by initialization gives the number of multi-method dispatch table "
     "cells, one per combination of classes treated alike, and counts exactly the methods for "
     "which some call has no overrider, and those for which some call is ambiguous. With n2216, "
     "the latter are the methods for which some call needs an arbitrary choice.",
     ["programs"],
     "all programs; every method and tuple of registered classes",
     "The tests check the report of a few fixed programs.",
     ["initialize.hpp"],
     [("counting", "initialize.hpp (build_dispatch_tables, accumulate)")],
     N1 + "The documentation calls the counted tables multi-method tables; methods with one "
     "virtual parameter are counted by the library too, and by this check.", MODEL)

prop("C08", "Every initialization installs exactly the classes registered now",
     "After any history of registering and unregistering classes, initializing, failing to "
     "initialize (because of the registrations, or for lack of memory), finalizing and "
     "initializing again, calls behave exactly as in a program that registered the current "
     "classes from the start and initialized once.",
     ["histories", "programs"],
     "all histories of class registration, initialize (successful or not) and finalize",
     "The tests re-initialize only to set up the next test case with the same classes.",
     ["initialize.hpp", "core.hpp", "preamble.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp"],
     [("intrusive lists of registrations", "preamble.hpp (static_list)"),
      ("table replacement", "initialize.hpp (write_global_data)"),
      ("policy initialize / finalize", "policies/*.hpp")],
     N1, "stateful property-based testing: generated histories against the reference model")

prop("C09", "With indirect v-table pointers, existing virtual pointers follow",
     "In a registry with indirect v-table pointers, a virtual pointer obtained before one or "
     "more re-initializations stays valid: it designates the same object, compares equal to a "
     "fresh one, and calls through it dispatch according to the latest initialization.",
     ["histories", "programs"],
     "all histories of re-initialization with changes of classes and methods, for pointers to "
     "classes that stay registered",
     "The only test reloads one library; stale pointers appear when tables move or shrink.",
     ["core.hpp", "initialize.hpp", "policies/vptr_vector.hpp", "policies/vptr_map.hpp"],
     [("pointer to the class's v-table pointer", "core.hpp (box_vptr, unbox_vptr)"),
      ("indirect entries of the vptr policies", "policies/vptr_vector.hpp, policies/vptr_map.hpp")],
     N1, "stateful property-based testing: generated histories against the reference model")

prop("C10", "The choice of policies never changes which overrider runs",
     "For a correct program, the way v-table pointers are stored and looked up, hashing of type "
     "ids, indirection and runtime checks do not affect the outcome of any call or the report.",
     ["configurations", "programs"],
     "all programs, under 8 combinations of vptr_vector / vptr_map, hashing, indirection and checks",
     "Each test runs under one configuration.",
     ["policies/vptr_vector.hpp", "policies/vptr_map.hpp", "policies/fast_perfect_hash.hpp", "core.hpp"],
     [("vptr lookup", "policies/vptr_vector.hpp, policies/vptr_map.hpp"),
      ("acquire_vptr", "core.hpp")],
     N1, "differential property-based testing across policy configurations")

prop("C11", "Runtime checks catch every incorrect use and never a correct one",
     "With runtime checks, using methods or virtual pointers before initialization or after "
     "finalization, passing an object of an unregistered class anywhere, or making a final "
     "virtual pointer to an object of another dynamic type is reported once, naming the classes "
     "at fault, before any overrider runs. Correct programs never see these errors.",
     ["programs", "inputs", "histories"],
     "all programs, type ids (including ids close to, or colliding in the hash with, registered "
     "ones), argument positions and moments",
     "The tests check one unregistered class and one final mismatch.",
     ["preamble.hpp", "core.hpp", "policies/fast_perfect_hash.hpp", "policies/vptr_map.hpp", "policies/vptr_vector.hpp"],
     [("initialized flag", "preamble.hpp (require_initialized)"),
      ("hash control table", "policies/fast_perfect_hash.hpp (check)"),
      ("final check", "core.hpp (final_virtual_ptr)")],
     N1 + "With an unhashed vptr_vector only ids beyond the table are required to be caught.",
     "stateful property-based testing with injected misuse")

prop("C13", "Initialization rejects exactly the incomplete registrations",
     "Initialization reports a missing class, naming it, if a class used as a virtual "
     "parameter (or, for methods returning classes, a covariant return type) is not registered, "
     "and a missing base, naming base and derived class, if an overrider's parameter is not "
     "registered as derived from the method's. Otherwise it succeeds, and dispatch follows the "
     "registered facts.",
     ["programs", "configurations"],
     "all programs and all subsets of the registrations they need",
     "The tests omit one class and one base in one program.",
     ["initialize.hpp"],
     [("lookups while resolving methods", "initialize.hpp (augment_methods)"),
      ("lookups while resolving bases", "initialize.hpp (augment_classes)")],
     N1 + "If several things are missing, any of them may be reported.", MODEL)

prop("C20", "Tracing is silent when off and never changes behaviour",
     "Initializing with tracing on, off or unspecified gives the same dispatch and the same "
     "report; nothing is written unless tracing is on. trace::from_env() turns it on exactly when "
     "BOOST_OPENMETHOD_TRACE is \"1\"; otherwise the variable has no effect.",
     ["configurations", "programs"],
     "all programs, all tracing modes in any order, all values of the variable",
     "The tests only look at the existence of output.",
     ["initialize.hpp", "preamble.hpp", "policies/fast_perfect_hash.hpp"],
     [("trace stream", "initialize.hpp (trace_stream)"),
      ("environment", "preamble.hpp (trace::from_env)")],
     N1, "metamorphic property-based testing over initialization options")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(
    os.path.join(V, "tools", "props2.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

P.sort(key=lambda p: p["prop"]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["id"]
        f.write(json.dumps(p["prop"]) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
m = dict(version=1, setup_cmd="python3 -c 'import driver.checks'",
         checks=[dict(property=p["prop"]["id"],
                      quick_cmd="python3 check.py %s quick" % p["prop"]["id"],
                      thorough_cmd="python3 check.py %s thorough" % p["prop"]["id"],
                      technique=p["technique"], level="exploration",
                      level_note=p["note"].strip())
                 for p in P if p["prop"]["id"] not in na],
         not_applicable=NOT_APPLICABLE)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
