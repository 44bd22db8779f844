#!/usr/bin/env python3
"""Writes properties.jsonl (the text lives here so that it stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe, hook_needed=hook)))


prop("C01", "Generated code executes exactly the declared instances",
     "For every input program and every parameter values allowed by its context, the code generated with the default options executes "
     "each integer point of every statement's domain exactly once, with the right iterator values, and nothing else. This holds for "
     "unions, equalities, divisions, strides, empty and zero-dimensional domains, and with any scattering.",
     ["programs", "inputs"], "all polyhedral programs, all parameter values satisfying the context",
     "The suite compares about 160 fixed inputs textually or at a single parameter value; it never states what the instances are, and never visits "
     "the other programs or parameter values.",
     ["source/loop.c", "source/program.c", "source/clast.c", "source/isl/domain.c", "source/isl/constraints.c", "source/stride.c"],
     [("separation, sorting, projection and recursion over levels", "source/loop.c: cloog_loop_generate and below"),
      ("simplification of domains against the context", "source/loop.c: cloog_loop_simplify; source/isl/domain.c: cloog_domain_simplify"),
      ("guards, loop bounds, modulo guards and assignments from constraints", "source/clast.c: insert_loop, insert_guard, insert_for, insert_equation")],
     ["AST returned by cloog_clast_create, executed by an interpreter", "text printed by cloog_program_pprint, executed by an interpreter"])

prop("C02", "Execution order follows the scattering",
     "Whatever the scattering functions, the generated code executes the instances in lexicographic order of their dates, including scalar, "
     "partial, strided, skewed, tiled and reversed schedules and across statements. Without scattering, the instances of a statement "
     "execute in lexicographic order of its iterators, and different statements are interleaved along the iterators they share.",
     ["programs", "schedules"], "all programs, all affine scatterings, all parameter values in the context",
     "The suite has a few dozen scattered inputs whose output is compared with text generated earlier by the same code.",
     ["source/loop.c", "source/program.c", "source/isl/domain.c", "source/block.c"],
     [("sorting of separated domains", "source/loop.c: cloog_loop_sort; source/isl/domain.c: cloog_domain_sort, cloog_domain_follows"),
      ("scalar dimensions and statement blocks", "source/loop.c: cloog_loop_generate_scalar; source/program.c: cloog_program_block, cloog_program_extract_scalars"),
      ("addition of scattering dimensions", "source/isl/domain.c: cloog_domain_scatter")],
     ["order of the events of the executed AST and text"])

prop("C03", "Generation options never change what is executed",
     "Every setting of the optimisation depths (first and last level to optimise, globally or per statement), strides, simple convex hulls, "
     "first level to unroll, scalar and block handling yields code that executes exactly the same instances, each once, and still in "
     "scattering order. Loops stay bounded whenever the domains are.",
     ["programs", "configurations"], "all programs x all combinations of the documented generation options",
     "Each option is exercised by one to three fixed inputs; their combinations by one.",
     ["source/loop.c", "source/program.c", "source/stride.c", "source/isl/domain.c", "source/options.c"],
     [("merge instead of separate", "source/loop.c: cloog_loop_merge, cloog_loop_generate_general"),
      ("stride computation and propagation", "source/loop.c: cloog_loop_stride, cloog_loop_propagate_lower_bound; source/isl/domain.c: cloog_domain_list_stride"),
      ("unrolling", "source/loop.c: loop_unroll; source/isl/domain.c: cloog_domain_can_unroll, cloog_domain_fixed_offset"),
      ("clamping of unsafe depths", "source/program.c: cloog_program_generate")],
     ["executed AST and text under each option vector"])

prop("C04", "Presentation options never change what is executed",
     "One-time-loop elimination, equality spreading and its first level, and statement blocks only change how the code looks: under every "
     "combination of them the generated code executes the same instances in the same order.",
     ["programs", "configurations"], "all programs x the product of the four presentation options (and strides)",
     "The suite runs two inputs with these options.",
     ["source/clast.c", "source/equalities.c" if False else "source/clast.c", "source/pprint.c"],
     [("equality spreading", "source/clast.c: clast_equal_add, insert_equation, cloog_equal machinery in source/isl/constraints.c"),
      ("one-time loops", "source/clast.c: insert_otl_for; source/isl/domain.c: cloog_domain_is_otl"),
      ("statement blocks", "source/clast.c: insert_for, insert_otl_for, insert_equation")],
     ["executed AST and text under each option vector"])

prop("C05", "The printed C code means what was asked for",
     "The C text printed for any program, compiled with the usual helper macros and any statement macros, executes exactly the declared instances "
     "in the required order under C's own arithmetic, including negative values, divisions, remainders and nested minima and maxima. "
     "It is well formed, uses no undefined name, and passes each statement its iterator values in declaration order.",
     ["programs", "configurations"], "all programs, all parameter values in the context, all presentation options",
     "The suite compares the text of fixed inputs, or executes them at one parameter value against text that the same printer produced.",
     ["source/pprint.c", "source/clast.c"],
     [("expression, guard, loop and statement printing", "source/pprint.c: pprint_expr, pprint_reduction, pprint_binary, pprint_guard, pprint_for, pprint_user_stmt")],
     ["printed text, executed by an independent interpreter and, compiled by gcc, by the machine"])

prop("C06", "Stand-alone programs execute the declared instances",
     "The complete C programs printed on request (with a main function reading the parameters, or as a callable function) compile without error "
     "and, for every parameter values in the context, execute exactly the declared instances in order and report them, with every statement "
     "name and number of arguments handled.",
     ["programs", "configurations"], "all programs, requested parameter values, default and presentation options",
     "The suite compiles such programs for the fixed inputs and compares the runs of two texts printed by the same code.",
     ["source/program.c", "source/pprint.c"],
     [("preamble, statement macros, variable declarations, postamble", "source/program.c: print_macros, print_declarations, print_iterator_declarations, cloog_program_pprint")],
     ["output of the compiled program"])

prop("C07", "The printed Fortran code means what was asked for",
     "The Fortran text printed for any program is valid Fortran that executes exactly the declared instances in the required order under "
     "Fortran's own arithmetic, with strided loops, remainders, divisions, long lines and all presentation options.",
     ["programs", "configurations"], "all programs, all parameter values in the context",
     "Four fixed inputs are compared textually; none is compiled or run.",
     ["source/pprint.c"],
     [("Fortran branches of the printer", "source/pprint.c: pprint_minmax_f, pprint_binary, pprint_guard, pprint_for, pprint_user_stmt")],
     ["printed text, executed by an independent interpreter and, compiled by gfortran, by the machine"])

prop("C08", "Every way of describing a program denotes the same program",
     "A program read from text means the same whichever notation, constraint order, scaling, redundancy, comments, blank lines, names or default "
     "names, and order of union members it is written with, and the same again when built through the library calls instead. Writing an input "
     "out in the input format and reading it back changes nothing.",
     ["inputs"], "all equivalent textual forms of a program and all construction routes",
     "The suite reads each of its inputs in one form only and never writes one back.",
     ["source/input.c", "source/union_domain.c", "source/isl/domain.c", "source/matrix.c", "source/names.c"],
     [("reading", "source/input.c: cloog_input_read; source/union_domain.c: cloog_union_domain_read; source/isl/domain.c: cloog_domain_union_read, cloog_domain_read_scattering"),
      ("writing", "source/input.c: cloog_input_dump_cloog"),
      ("library construction", "source/isl/domain.c: cloog_domain_from_cloog_matrix, cloog_domain_from_isl_set; source/union_domain.c: cloog_union_domain_add_domain")],
     ["meaning of the code generated from each form"])

prop("C09", "No memory error, no leak, in any generation",
     "Reading, generating, printing and freeing any valid program under any options performs no invalid memory access and no undefined operation, "
     "and releases everything it allocated; the library's own allocation counters balance.",
     ["programs", "configurations"], "all valid programs x options x output languages",
     "The suite runs without any memory checking.",
     ["source/loop.c", "source/block.c", "source/statement.c", "source/clast.c", "source/isl/domain.c", "source/isl/constraints.c", "source/state.c"],
     [("manual reference counting", "source/isl/domain.c, source/block.c: cloog_block_free, source/loop.c: cloog_loop_free_parts"),
      ("allocation counters", "source/state.c, source/cloog.c")],
     ["AddressSanitizer, LeakSanitizer and UBSan on the real code; counters in the state"])

prop("C10", "A result depends only on its own input",
     "Generating the same program with the same options always yields the same text, whatever was generated before in the same process, "
     "with the same or another library state, with the same option structure, and whether or not earlier results were freed.",
     ["histories"], "all sequences of library operations",
     "Each test is a fresh process that generates one program.",
     ["source/state.c", "source/isl/backend.c", "source/options.c", "source/program.c", "source/loop.c"],
     [("per-call state", "source/state.c, source/isl/backend.c, source/options.c")],
     ["text printed after each history"])

prop("C11", "Statements keep their identity",
     "Every statement call in the result refers to the statement it came from: its number, its name or default name, the user's pointer, and "
     "as many arguments as its domain has dimensions, in order. Parameters, iterators and scattering dimensions carry the given names, or "
     "distinct default names when none are given.",
     ["programs", "inputs"], "all programs with any mixture of named and unnamed statements, iterators, parameters and scattering dimensions",
     "Names are fixed in the suite's inputs and user pointers are never used.",
     ["source/statement.c", "source/union_domain.c", "source/program.c", "source/names.c", "source/clast.c"],
     [("statement numbering, naming and user pointers", "source/program.c: cloog_program_alloc; source/statement.c"),
      ("default names", "source/names.c: cloog_names_generate_items, cloog_names_scalarize")],
     ["user statements of the AST; names in the AST and the text"])

prop("C12", "Domains attached to the result are true of the execution",
     "When saving domains is requested, the domain attached to each loop and statement call of the result contains every iteration that loop or call "
     "executes, over the enclosing scattering and iteration dimensions and the parameters. For programs whose constraints need no division, "
     "it contains nothing else.",
     ["programs", "configurations"], "all programs, all parameter values in the context",
     "No test looks at these domains.",
     ["source/loop.c", "source/clast.c"],
     [("unsimplified domains", "source/loop.c: loop_simplify; source/clast.c: new_clast_for, new_clast_user_stmt")],
     ["domain fields of the AST nodes, tested at each executed iteration"])

prop("C13", "Stopping at a level yields exactly the outer loops",
     "When generation is stopped at a level, each statement is called for every prefix, cut at that level, of its instances; without scattering "
     "exactly once per prefix and in lexicographic order. Statements that are not cut are called exactly at their instances. No loop nest is deeper than "
     "the level. (A cut statement may also be called for a prefix without instance; constant scattering "
     "dimensions handled as scalars go with the loop they precede.)",
     ["programs", "configurations"], "all programs x all stop levels",
     "No test uses the option.",
     ["source/loop.c", "source/program.c", "source/clast.c"],
     [("early end of the recursion", "source/loop.c: cloog_loop_generate, cloog_loop_stop")],
     ["executed AST"])

prop("C14", "The command line does what it says",
     "Every sequence of documented command-line options produces the same text as the library with the same settings, whatever their order, with the "
     "last setting of an option winning; invalid values, missing arguments and missing files are refused with a message and a failure "
     "status, and output goes to the requested place.",
     ["configurations", "histories"], "all sequences of option words up to a length",
     "The suite uses a fixed command line per input and never an invalid one.",
     ["source/options.c", "source/cloog.c"],
     [("option parsing", "source/options.c: cloog_options_read, cloog_options_set")],
     ["exit status, standard output, standard error and output file of the tool"])

prop("C15", "Malformed input is refused cleanly",
     "Whatever the bytes of the input, the reader either accepts them or stops with an error message and a failure status: it never "
     "crashes, hangs, reads or writes memory it does not own. An input that ends inside the statements or scattering functions it announces, "
     "or whose domains cannot be read, is refused.",
     ["inputs", "fault_sequences"], "all truncations and all single-token corruptions of valid inputs",
     "Every input of the suite is valid.",
     ["source/input.c", "source/union_domain.c", "source/names.c", "source/matrix.c", "source/isl/domain.c"],
     [("checks while reading", "source/input.c, source/union_domain.c, source/names.c: cloog_names_read_strings, source/isl/domain.c: cloog_domain_union_read")],
     ["exit status, signals, standard error of the tool under a memory checker"])

prop("C16", "Set operations are exact",
     "The domain operations offered to library users (union, intersection, difference, projection, extension, simplification in a context, convex and "
     "simple hulls, emptiness, equality and constancy tests, ordering, strides, reading and building from matrices) agree with the sets of "
     "integer points they are defined on, and leave their operands unchanged unless documented to take them.",
     ["inputs", "histories"], "all small sets and all pairs of them",
     "No test calls these operations directly.",
     ["source/isl/domain.c", "source/isl/constraints.c", "source/matrix.c"],
     [("wrappers around the set library", "source/isl/domain.c")],
     ["integer points of operands and results, by explicit enumeration"])

prop("C17", "Loop queries on the result are complete and exact",
     "Filtering the result by iterator name and statements returns exactly the loops that satisfy the filter and exactly the statements below the given node, "
     "wherever they appear: under guards, blocks, assignments and loops, and after them.",
     ["programs", "configurations"], "all results x all filters",
     "No test calls the query.",
     ["source/clast.c"],
     [("traversal", "source/clast.c: clast_filter")],
     ["returned lists compared with an independent traversal"])

prop("C18", "Marking loops parallel or vector keeps the iterations",
     "Annotating a loop of the result as parallel, vector or timed, with private and reduction variables or a user directive, changes the printed text only by the "
     "directives and helper variables: the printed code still executes the same instances in the same order, and the directive stands "
     "immediately before its loop and lists the given variables.",
     ["programs", "configurations"], "all results x all annotations of one loop per nest",
     "No test annotates a loop.",
     ["source/pprint.c", "source/clast.c"],
     [("printing of annotated loops", "source/pprint.c: pprint_for")],
     ["printed text, executed by an interpreter"])

prop("C19", "Integers of any size are exact",
     "Coefficients, constants, strides and bounds far beyond machine integers are read, computed with and printed exactly.",
     ["inputs"], "all magnitudes, in particular around powers of two of machine words",
     "The suite's constants fit in 32 bits.",
     ["source/isl/domain.c", "source/isl/constraints.c", "source/clast.c", "source/pprint.c", "source/matrix.c", "include/cloog/int.h.in"],
     [("multiple-precision integers", "include/cloog/int.h.in; source/int.c; source/vector.c")],
     ["executed AST and text in 128-bit arithmetic"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["anchors"]["files"] = sorted(set(p["anchors"]["files"]))
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
