#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (a developer's
tool; both files are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note,
         level="model_checking", state=()):
    P.append(dict(
        p={"id": id, "title": title, "statement": statement,
           "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
           "anchors": {"files": files,
                       "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                       "mechanism": [dict(name=a, where=b) for a, b in mech],
                       "observe_at": observe, "hook_needed": None}},
        c={"property": id, "quick_cmd": "python3-vt check.py " + id,
           "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + id,
           "evidence_file": "evidence/%s.json" % id,
           "technique": technique, "level": level, "level_note": note}))


TV = ("TLA+ specification Scan (instances, dates) and Clast (AST machine); TLC explores the product AstScan for the "
      "AST the real code returns")
TN = ("For every generated program: TLC runs the AST returned by the library as a state machine next to the "
      "specification of the scan and rejects any step the specification does not allow, for up to 5 parameter "
      "vectors per program; all programs (12 parameter vectors each) are screened beforehand by a fast interpreter "
      "that only selects what TLC looks at. Bounded by the corpus: small domains, coefficients and depths. Trusts "
      "the AST dump of the harness.")
SUITE = ("The suite compares about 200 fixed inputs with reference outputs (or runs both for one parameter value); "
         "it cannot quantify over ")

prop("C01", "Generated code executes exactly the integer points of every domain",
     "For every set of statement domains, context and parameter values admitted by the context, running the generated "
     "AST executes each statement for exactly the integer points of its domain, each exactly once: nothing missing, "
     "nothing extra, nothing twice, and it terminates without reading an undefined variable. Statement instances are "
     "identified by the values of the original iterators the statement receives.",
     ["inputs"], "all bounded unions of polyhedra, numbers of statements, depths and parameter values",
     SUITE + "shapes of domains (overlaps, coefficients, equalities, empty pieces) and parameter values.",
     ["source/loop.c", "source/clast.c", "source/program.c", "source/isl/domain.c", "source/isl/constraints.c"],
     [("projection, separation and sorting of the loop tree", "source/loop.c"),
      ("bounds, guards and assignments of the AST", "source/clast.c"),
      ("set operations", "source/isl/domain.c")],
     ["cloog_clast_create_from_input", "struct clast_stmt tree"], TV, TN,
     state=[("todo", "instances still to execute", "spec/Scan.tla")])
prop("C02", "Generated code runs statement instances in scattering order",
     "When scattering functions are given, the generated code executes the instances so that an instance with a "
     "lexicographically smaller logical date is never executed after one with a larger date, for constant, affine, "
     "skewed, tiled, rational and partial scatterings. The set of executed instances stays exactly the domains' "
     "(restricted to instances with an integral date).",
     ["inputs", "schedules"], "all scattering functions and domains, all parameter values",
     SUITE + "relative orders of several statements under arbitrary scatterings; order is only seen through a hash of "
     "one execution.",
     ["source/loop.c", "source/program.c", "source/block.c", "source/isl/domain.c", "source/union_domain.c"],
     [("sorting of separated loops", "source/isl/domain.c:cloog_domain_sort"),
      ("scalar dimensions", "source/program.c:cloog_program_extract_scalars"),
      ("blocks", "source/program.c:cloog_program_block")],
     ["cloog_clast_create_from_input"], TV, TN,
     state=[("last", "date of the last executed instance", "spec/Scan.tla")])
prop("C03", "Code generation options never change what is executed",
     "Options that trade control overhead for code size (-f, -l, per-statement first/last depths, -sh, -otl, -esp, "
     "-fsp, -strides, -block, -noblocks, -noscalars, -first-unroll, -backtrack), in any combination, leave the executed "
     "instances and the scattering order unchanged.",
     ["inputs", "configurations"], "all combinations of optimisation options with all inputs",
     SUITE + "combinations of options: each test input uses one fixed option set.",
     ["source/options.c", "source/loop.c", "source/clast.c", "source/program.c", "source/stride.c"],
     [("separation limited to first..last depth", "source/loop.c"),
      ("simple hulls, one time loops, equality spreading, unrolling", "source/clast.c, source/loop.c")],
     ["cloog_options_read", "cloog_clast_create_from_input"], TV, TN)
prop("C04", "Lattices and strides: only the points that satisfy the congruences",
     "Domains and scatterings with existentially quantified variables or integer divisions (congruences, floors, "
     "exact divisions, windows modulo a number) are scanned exactly, with strided loops (-strides 1) and without: "
     "every point that satisfies the congruence is executed once and no other.",
     ["inputs", "configurations"], "all congruences on iterators and parameters, with strides on or off",
     SUITE + "moduli, offsets and their combination with parameters and other constraints.",
     ["source/stride.c", "source/clast.c", "source/isl/constraints.c", "source/isl/domain.c", "source/loop.c"],
     [("stride detection and use", "source/stride.c, source/isl/domain.c:cloog_domain_list_stride"),
      ("modulo guards", "source/clast.c:insert_extra_modulo_guards"),
      ("divisions turned into constraints", "source/isl/constraints.c")],
     ["cloog_clast_create_from_input"], TV, TN)
prop("C05", "Overlapping unions and shared domains are scanned once per point",
     "A statement domain given as a union of polyhedra that overlap, touch, contain each other, coincide or are empty "
     "is scanned as a set: an integer point in several pieces is executed once. Different statements that share points "
     "each execute all of theirs.",
     ["inputs"], "all unions (including empty and identical pieces) of one or more statements",
     SUITE + "overlap patterns of unions.",
     ["source/loop.c", "source/isl/domain.c", "source/block.c"],
     [("disjoint decomposition", "source/loop.c:cloog_loop_add_disjoint, cloog_loop_separate"),
      ("restriction to disjoint pieces", "source/loop.c:cloog_loop_project")],
     ["cloog_clast_create_from_input"], TV, TN)
prop("C06", "Printed C code executes what the specification of the scan allows",
     "The text printed for C, compiled as documented (plain with the user's own statement macros, -callable 1, or "
     "-compilable n as a complete program), compiles and executes exactly the instances of the domains in scattering "
     "order; a -compilable program prints every instance and their number. Statement arguments can be used as operands "
     "of larger expressions.",
     ["inputs", "configurations"], "all inputs, options and parameter values",
     "The reference outputs fix the text of about 200 programs; text no test prints is never compiled.",
     ["source/pprint.c", "source/cloog.c", "source/program.c", "source/clast.c"],
     [("expressions, guards, loops", "source/pprint.c"), ("program skeletons", "source/program.c:cloog_program_dump_cloog, "
      "source/cloog.c, source/clast.c")],
     ["standard output of the cloog program"],
     "trace validation: traces recorded from the compiled printed C are checked by TLC against the TLA+ specification "
     "Scan (TraceScan)",
     "Each trace recorded from a compiled program must be a complete behaviour of Scan (TLC decides for half of the "
     "programs, and for everything the fast comparison rejects). Windows of remainders of negative numbers are a "
     "recorded finding and are left out of the corpora. Trusts gcc and the recording macros.")
prop("C07", "Printed Fortran code executes what the specification of the scan allows",
     "With Fortran as output language the printed text compiles as a free-form Fortran subroutine body and executes "
     "exactly the instances of the domains in scattering order, with every combination of strides, guards, blocks and "
     "modulo conditions, negative values included.",
     ["inputs", "configurations"], "all inputs, options and parameter values",
     "Three Fortran reference outputs are compared textually and never compiled.",
     ["source/pprint.c"], [("Fortran branches of the pretty printer", "source/pprint.c")],
     ["standard output of the cloog program"],
     "trace validation: traces recorded from the compiled printed Fortran are checked by TLC against the TLA+ "
     "specification Scan (TraceScan)",
     "As for C06, with gfortran.")

exec(open(os.path.join(HERE, "tools", "table2.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "table2.py")) else None

NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x["p"]) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py",
               "checks": [x["c"] for x in P], "not_applicable": NA,
               "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the checks use the public API and the "
                        "cloog program only."}, f, indent=1)
    f.write("\n")
