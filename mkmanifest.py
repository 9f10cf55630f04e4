#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (both are committed)."""
import json
import os
import sys

import checks

VERIF = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=list(observe))


PROPS = [
    P("P01", "Fixed-length arrays compute element by element, whatever the expression",
      "For arrays of any length and element types, any composition of the arithmetic operators with arrays and scalars, and any "
      "assignment or compound assignment of such an expression (also one that mentions its own target), gives in every element what "
      "the same expression over that element alone gives. Comparison, products, sums, norms, projections and the construction and "
      "conversion forms agree with their element-wise definitions, and no element of another array changes.",
      ["inputs", "programs"], "all lengths, element types, values and expression shapes, and sequences of assignments",
      "the tests try a few lengths and one operator at a time; expression trees, aliasing and mixed types are a product space",
      ["src/grid/array.hpp", "src/grid/array.t", "src/grid/arrayexpression.hpp"],
      [("expression templates", "src/grid/arrayexpression.hpp"), ("element-wise assignment", "src/grid/array.t")],
      "property-based testing: random operation sequences against an element-wise reference model",
      "random sequences over 4 arrays, 34 expression shapes, 7 lengths, 4 element types, compared after every step; ASan build"),
    P("P02", "Ranges contain and visit exactly their index positions, in order, once",
      "For any corner positions, a range contains exactly the positions between its corners (both included); iterating over it, or "
      "handing it to any of the iteration policies including the Kokkos ones, visits each of those positions exactly once, the "
      "sequential ones in row-major order, and nothing at all when the range is empty. Growing, projecting and converting a range "
      "changes its corners exactly as stated and nothing else.",
      ["inputs", "schedules"], "all ranks, index types, corner positions (also empty and negative), and thread schedules of the parallel policy",
      "tests iterate over a handful of small boxes",
      ["src/grid/range.hpp", "src/grid/iteration/range-iteration.hpp", "src/grid/iteration/kokkos-iteration.hpp"],
      [("range iterator", "src/grid/range.hpp"), ("iteration policies", "src/grid/iteration/range-iteration.hpp"),
       ("Kokkos iteration policies", "src/grid/iteration/kokkos-iteration.hpp")],
      "property-based testing against enumeration of the index set",
      "boxes of ranks 1-6 over four index types, all policies; Kokkos runs with the OpenMP backend and two threads"),
    P("P03", "Every grid index addresses its own cell, in the documented memory layout",
      "For grids of any rank, extent and storage policy, however constructed or resized, every position within the limits addresses one "
      "cell of its own, all index forms (index array, checked index array, index expression, separate indices, read-only access) "
      "address the same cell, and what is written is what is read back. Lower and upper limits, dimensions and total size are the "
      "requested ones, the raw data is laid out row-major (C storage) or column-major (Fortran storage), and iterators visit every "
      "cell once.",
      ["inputs", "configurations"], "all ranks 1-10, extents, offsets, element types, storage policies, construction and resize forms",
      "tests fix one extent per rank and compare mostly with the same index form",
      ["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/gridstorage.hpp", "src/grid/gridstorage/single-array-storage-base.hpp",
       "src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/kokkos-storage.hpp"],
      [("index to offset", "src/grid/gridstorage/single-array-storage-base.hpp"), ("allocation", "src/grid/gridstorage/single-array-allocation.hpp"),
       ("Kokkos views", "src/grid/gridstorage/kokkos-storage.hpp")],
      "property-based testing against a model array; bijection and layout oracles; AddressSanitizer",
      "random extents for ranks 1-10, four storage policies; every cell written and read through every index form"),
    P("P04", "Copies of a grid share one data set through every resize and lifetime",
      "A grid copied or assigned from another refers to the same cells as the original, and this stays true whichever of them is "
      "written, resized, reassigned or destroyed afterwards: all members of a sharing group always have the same limits and contents, "
      "and a grid assigned away from a group is unaffected by it and does not affect it. No history leaks, double-frees or "
      "touches freed memory, and lazily reallocated grids keep valid storage of at least the requested size.",
      ["histories"], "all histories of construct, copy, assign, resize, write and destroy over several grids and storage policies",
      "tests check single copies; bookkeeping errors need interleavings of resize, assignment and destruction",
      ["src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/kokkos-storage.hpp"],
      [("reference-counted data and update notification", "src/grid/gridstorage/single-array-allocation.hpp"),
       ("shared Kokkos view", "src/grid/gridstorage/kokkos-storage.hpp")],
      "stateful property-based testing against a model of sharing groups; AddressSanitizer",
      "histories over 5 (sometimes 24) grids in C, Fortran, lazy and Kokkos storage, compared after every operation"),
    P("P05", "Whole-grid fill, add and subtract act on every cell, across storage policies",
      "Filling a grid with a value, and adding or subtracting another grid of the same extent in place, changes every cell exactly as the "
      "element-wise operation says, for every combination of storage layouts and element types, and leaves the other operand unchanged.",
      ["inputs", "configurations"], "all extents, element types and pairs of storage layouts",
      "tests cover same-layout grids of a few sizes",
      ["src/grid/grid.hpp", "src/grid/grid.t"], [("operators on whole grids", "src/grid/grid.t")],
      "property-based differential testing against cell-wise arithmetic",
      "all pairs of C, Fortran, lazy (and Kokkos where defined) storage, ranks 1-4"),
    P("P06", "Checked grids and arrays never let an out-of-range access through silently",
      "With an asserting policy every access outside the limits of a grid, sub grid or array stops the program, and no access inside them "
      "ever does. With the debugging policy an outside access is redirected to the nearest valid cell and recorded (flag, dimension, "
      "position), inside accesses are exact and record nothing, and no other cell is touched.",
      ["inputs", "histories"], "all extents, index forms, positions inside and outside, and sequences of accesses",
      "no test touches these policies out of range",
      ["src/grid/gridcheck.hpp", "src/grid/arraycheck.hpp", "src/grid/subgrid.hpp", "src/grid/grid.t"],
      [("grid checking policies", "src/grid/gridcheck.hpp"), ("array checking policies", "src/grid/arraycheck.hpp"),
       ("sub grid limits", "src/grid/subgrid.t")],
      "property-based testing with each access in a child process; model of clamped accesses",
      "positions just inside, just outside and far outside, all index forms; assumes a build with assertions on"),
    P("P07", "Sub grids and transformed grids are exact live views of their grid",
      "A sub grid reads and writes exactly the cells of its region of the underlying grid, with the same indices, and never any other "
      "cell; a transformed grid always shows the transformation of the current value of the same cell. Limits, dimensions, "
      "iteration order and whole-view assignment and arithmetic follow the region, whatever was done to view or grid before.",
      ["inputs", "histories"], "all grids, regions, transformations and interleavings of writes through view and grid",
      "no test instantiates the views with histories of writes",
      ["src/grid/subgrid.hpp", "src/grid/subgrid.t", "src/grid/gridtransform.hpp", "src/grid/gridtransform.t"],
      [("view storage", "src/grid/subgrid.hpp"), ("transforming storage", "src/grid/gridtransform.hpp")],
      "stateful property-based testing of views against one model array",
      "ranks 1-5, C/Fortran/lazy base grids, every cell of grid and view compared after each operation"),
    P("P08", "Fields map indices to positions and back consistently",
      "For any inner index range, ghost width, staggering and physical domain, the inner cells of a field evenly fill the domain: a grid "
      "point's position is the domain's lower edge plus its offset from the inner lower index in cell widths, plus half a cell where "
      "the field is staggered. A position is always resolved to the grid point left of it and the fraction of a cell from there, "
      "and inner and outer limits, stagger and domain survive construction, resize, copy and assignment in every form.",
      ["inputs", "histories"], "all index ranges, ghost widths, staggering, domains and positions, and all construction and resize histories",
      "tests use a few fields with one geometry each",
      ["src/grid/field.hpp", "src/grid/field.t"], [("position and index conversion", "src/grid/field.t"), ("ghost cells around the inner range", "src/grid/field.t")],
      "property-based testing against a closed-form reference and round trips",
      "ranks 1-4, ghost widths 0-4; positions strictly inside cells decided exactly, on grid points with rounding tolerance"),
    P("P09", "Ghost and source regions tile the domain and match across neighbours",
      "For any domain and ghost width, in each dimension the lower ghost region, the inner part and the upper ghost region tile the domain; "
      "the source region on a side is exactly what the neighbour beyond that side sees as its ghost region. Regions for "
      "staggered fields drop the row on the boundary, and the sub grids obtained for a region alias exactly its cells.",
      ["inputs"], "all domains, ghost widths, dimensions, sides and staggering",
      "tests check two fixed domains",
      ["src/grid/boundary.hpp", "src/grid/boundary.t"], [("region computation", "src/grid/boundary.t")],
      "property-based testing: tiling and neighbour-shift oracles",
      "ranks 1-4, ghost widths 0-4, inner regions at least as wide as the ghost region"),
    P("P10", "Serial subdivision makes grids periodic",
      "For any domain and ghost width, exchanging in one dimension sets exactly that dimension's ghost cells to the periodic image of the "
      "inner cells; accumulating gives every cell the sum of all cells that are images of each other; together over all dimensions, in any "
      "order, edges and corners follow too. Limits, physical extent, process numbers, reductions and exchanged buffers are those "
      "of a single process holding everything.",
      ["inputs", "histories"], "all ranks, domains, ghost widths, contents and orders of dimensions",
      "tests exchange one fixed grid",
      ["src/grid/domainsubdivision.hpp", "src/grid/domainsubdivision.t"], [("copying between regions", "src/grid/domainsubdivision.t")],
      "property-based testing against a periodic model",
      "ranks 1-3, every cell compared after every dimension"),
    P("P11", "The parallel subdivision tiles the global domain over any number of processes",
      "For any number of processes and any global domain with enough cells for all of them, the inner parts of all processes are disjoint "
      "and cover exactly the global domain, and each local domain is its inner part plus the ghost cells. Process numbers and location ids "
      "are unique, exactly one process is master, boundary flags mean touching the global edge, and local physical extents "
      "put every grid point where the global grid has it.",
      ["inputs", "configurations"], "all process counts, ranks, global domains and ghost widths",
      "the test suite never runs with more than one process",
      ["src/grid/mpisubdivision.hpp", "src/grid/mpisubdivision.t", "src/grid/domainsubdivision.hpp", "src/util/factor.cpp"],
      [("division of the index range", "src/grid/mpisubdivision.t"), ("process grid", "src/util/factor.cpp")],
      "property-based testing over real MPI runs; global ownership map gathered and checked",
      "1 to 8 real processes, ranks 1-4, arbitrary offsets"),
    P("P12", "Parallel exchange fills ghost cells with the neighbours' cells, periodically",
      "After exchanging a grid over any number of processes, every ghost cell of every process holds the value of the inner cell, owned by "
      "whichever process, that it is the periodic image of, corners included once all dimensions are done in any order; an exchange in "
      "one dimension changes nothing but that dimension's ghost cells.",
      ["inputs", "configurations", "schedules"], "all process counts, domains, ghost widths, element types, storage layouts and orders of dimensions",
      "the test suite never runs with more than one process",
      ["src/grid/mpisubdivision.t", "src/grid/mpisubdivision.cpp", "src/grid/boundary.t"],
      [("packing and message exchange", "src/grid/mpisubdivision.t"), ("element types", "src/grid/mpisubdivision.cpp")],
      "property-based testing over real MPI runs against a global periodic model",
      "1 to 8 real processes, ranks 1-3, several element types and storages"),
    P("P13", "Parallel accumulation, reductions and buffers agree with a global computation",
      "Accumulating over any number of processes gives every cell, inner or ghost, the sum over all cells of all processes that are images "
      "of the same global cell. Sum, average, maximum and minimum reductions return the global result on every process, and a buffer "
      "sent to the next or previous process in a dimension arrives there unchanged with its own length.",
      ["inputs", "configurations", "schedules"], "all process counts, domains, values and buffer lengths",
      "the test suite never runs with more than one process",
      ["src/grid/mpisubdivision.t"], [("accumulate, reductions, exchangeData", "src/grid/mpisubdivision.t")],
      "property-based testing over real MPI runs against a global model",
      "1 to 8 real processes; parts at least two ghost layers wide"),
    P("P14", "Processes are distributed over dimensions without loss",
      "For any number of processes, number of dimensions and dimension weights, the computed numbers of processes per dimension are "
      "positive and their product is the number of processes.",
      ["inputs"], "all process counts, dimension counts and weights", "not covered by any test",
      ["src/util/factor.cpp", "src/util/factor.hpp"], [("factorisation and distribution", "src/util/factor.cpp")],
      "property-based testing with a product oracle", "up to 10^9 processes, 1-4 dimensions, zero weights included"),
    P("P15", "Setup file expressions evaluate to what the language defines",
      "For every setup file the parser accepts, every variable has the value that its expression denotes: operator precedence and "
      "associativity, unary signs, powers, parentheses, calls of the function last registered under a name, promotion of integers to floats and of numbers to strings, and conversion "
      "to the declared type. Reassignment uses the value at that point for constants and the current value for variables that are "
      "not constant, and an integer division by zero is reported as an error.",
      ["inputs", "programs"], "all setup files: any nesting of operators, types, functions, declarations and reassignments",
      "tests evaluate a few dozen fixed expressions; precedence, promotion and conversion interact in arbitrary trees",
      ["src/parser/deckgrammar.inc", "src/parser/parsertoken.cpp", "src/parser/parsertoken.t", "src/parser/operators2.hpp", "src/variables/expression.hpp",
       "src/variables/operators.hpp", "src/variables/types.hpp", "src/variables/function_expression.hpp", "src/functions.cpp"],
      [("grammar and semantic actions", "src/parser/deckgrammar.inc"), ("operator tokens", "src/parser/parsertoken.t"),
       ("expression trees", "src/variables/expression.hpp"), ("function calls", "src/variables/function_expression.hpp"),
       ("built-in functions", "src/functions.cpp")],
      "generated programs, differential against an independently written reference interpreter",
      "random programs with up to dozens of statements, nested expressions of all types and every registered function; floats compared to rounding"),
    P("P16", "Layout, comments and length of tokens never change what a setup file means",
      "Blanks, tabs, line breaks and comments of any content and length between tokens, and names, numbers and strings of any length, "
      "leave the meaning of a setup file unchanged: the same sequence of tokens always gives the same blocks, variables and values.",
      ["inputs"], "all renderings of all token sequences",
      "tests use small files that never cross a scanner buffer",
      ["src/parser/deckscanner.cpp", "src/parser/deckscanner.hpp"], [("scanner and its buffer", "src/parser/deckscanner.cpp")],
      "metamorphic property-based testing: same tokens rendered in different layouts",
      "plain rendering against random layouts with long tokens and comments crossing the scanner's buffer"),
    P("P17", "No input makes the parser crash, hang or misuse memory",
      "Whatever bytes are presented as a setup file, parsing and evaluating them ends, either with a tree of blocks or with one of the documented "
      "exceptions, without crashing or misusing memory.",
      ["inputs"], "all byte strings", "tests parse valid files and a few mistakes",
      ["src/parser/deckscanner.cpp", "src/parser/parser.cpp", "src/parser/deckgrammar.inc", "src/parser/parsertoken.cpp", "src/variables/dependencies.cpp"],
      [("scanner", "src/parser/deckscanner.cpp"), ("parser driver", "src/parser/parser.cpp"), ("semantic actions", "src/parser/parsertoken.cpp")],
      "structured fuzzing of the parser under AddressSanitizer and UndefinedBehaviorSanitizer",
      "random bytes, token soup, mutated valid programs and deep nesting, with a time limit per case"),
    P("P18", "Mistakes in setup files are rejected and reported at the right place",
      "A setup file with a mistake (syntax error, unknown name, wrong type, duplicate declaration, assignment to something read-only or "
      "missing, wrong number of arguments, unknown block) is never accepted silently, and the reported error names the kind of mistake and, for parse "
      "errors, the line it is on; everything before the mistake has no influence on the report, and a file without a mistake is accepted.",
      ["inputs"], "all setup files with a mistake at any place",
      "tests check that a few files throw, never where",
      ["src/parser/parser.cpp", "src/parser/parsertoken.cpp", "src/parser/deckscanner.cpp", "src/variables/variables.cpp", "src/util/exceptions.cpp"],
      [("syntax errors", "src/parser/parser.cpp"), ("semantic checks", "src/parser/parsertoken.cpp")],
      "generated programs with injected mistakes against a reference parser",
      "the first mistake, its kind and line compared with the reference"),
    P("P19", "Names in setup files resolve by block, outward, and by path",
      "A name in a setup file always means the variable or function of the innermost enclosing block that declares it, and a path of names the variable reached "
      "through exactly those blocks; equal names in different blocks never interfere. Lookups by the program find exactly what the "
      "setup file declared, in the block that declared it.",
      ["inputs", "programs"], "all hierarchies of blocks, names and references between them",
      "tests use one or two nesting levels with distinct names",
      ["src/variables/variables.cpp", "src/variables/variables.hpp", "src/parser/parsertoken.cpp", "src/variables/blockclasses.cpp"],
      [("variable storage and lookup", "src/variables/variables.cpp"), ("identifiers in expressions", "src/parser/parsertoken.cpp")],
      "generated block hierarchies against a reference scope model",
      "deep and wide hierarchies with few, colliding names"),
    P("P20", "Block parameters receive exactly what the setup file says",
      "Every parameter a block declares gets the value the setup file assigns to it, converted to the parameter's type, or its default if the "
      "file says nothing; each component of an array parameter gets its own. Parameters without default that are not "
      "set, unknown names and assignments to constants are reported, and no parameter of any other block is influenced. A group of parameters contains exactly what was "
      "added to it.",
      ["inputs", "configurations"], "all sets of parameters, defaults and setup files",
      "tests declare a handful of parameters",
      ["src/variables/blockparameters.hpp", "src/variables/blockparameters.cpp", "src/variables/block.cpp", "src/parser/parser.cpp"],
      [("parameter registration and evaluation", "src/variables/blockparameters.hpp"), ("setting parameters", "src/variables/block.cpp")],
      "property-based testing over generated block classes and setup files",
      "blocks with up to several parameters of all kinds and arrays of 1 to 6 components"),
    P("P21", "Dependent variables follow every change of what they depend on",
      "After any history of changing independent variables and updating, every dependent variable that was asked to be updated has the value "
      "its expression has for the current values of everything it depends on, directly or through other variables; variables not "
      "asked for and independent ones are not written.",
      ["histories", "programs"], "all dependency graphs and histories of changes and updates",
      "tests use chains of two or three variables",
      ["src/variables/dependencies.cpp", "src/variables/dependencies.hpp"],
      [("dependency graph and update order", "src/variables/dependencies.cpp")],
      "stateful property-based testing against complete re-evaluation",
      "generated programs of up to dozens of variables, up to three updaters and interleaved changes"),
    P("P22", "Fields are filled with the setup expression evaluated at each cell",
      "Filling a field from a variable of the setup file that depends on the coordinates sets every cell, ghost cells included, to the "
      "value of the expression at the position of that cell, for any geometry, staggering and expression, and for any "
      "number of fields and variables filled one after another; nothing else is written.",
      ["inputs", "programs", "histories"], "all expressions, field geometries and sequences of fills", "no test fills fields",
      ["src/tools/fieldtools.hpp", "src/tools/fieldtools.t"], [("field filling", "src/tools/fieldtools.t")],
      "property-based testing against a reference interpreter evaluated per cell",
      "ranks 1 to 3, random geometries and expressions, several fills in a row"),
    P("P23", "Blocks are created, initialised and destroyed in order, each exactly once",
      "For any setup file, the tree of blocks is the one of the file; parameters are set up, blocks registered, and the stages of "
      "initialisation run once per block, each stage parents first and in file order, and a stage starts only after the "
      "stage before it is complete in the whole tree. Containers hold exactly their child blocks of the matching type, in order, each once.",
      ["inputs", "histories"], "all trees of blocks", "tests use one fixed tree",
      ["src/variables/block.cpp", "src/variables/block.hpp", "src/variables/blockclasses.cpp", "src/variables/blockcontainer.hpp", "src/parser/parser.cpp"],
      [("life cycle", "src/variables/block.cpp"), ("containers", "src/variables/blockcontainer.hpp")],
      "property-based testing over generated block trees; recorded event order",
      "random trees of several block classes"),
    P("P24", "Shared data is found by name, in the block's scope first",
      "Asking a block for shared data gives what was last shared under that name and type by the block itself, else by the nearest "
      "enclosing block, where a path of block names leads to the block it names, and only if there is none on the way up, the one below. "
      "Unknown names and, below, ambiguous ones are reported, and data of another type or name is never given.",
      ["histories"], "all trees of blocks and histories of sharing and retrieving", "tests share one item",
      ["src/variables/blockdata.hpp", "src/variables/block.hpp"], [("shared data storage", "src/variables/blockdata.hpp")],
      "stateful property-based testing against a model of the lookup",
      "random trees and histories over few colliding names and several types"),
    P("P25", "Diagnostics write exactly when due, into the right files, nothing is lost",
      "Over any run, each diagnostic writes at every step that its interval or time spacing makes due and at no other, "
      "into the file its name pattern gives (with rank and count filled in) or appended to one file, only on the master process if so "
      "asked, and what was written is in the file. The adjusted time step is the same on all processes, never exceeds the given one and "
      "never passes over an output time; a missing clock is reported, and destroyed diagnostics are not executed.",
      ["histories", "inputs"], "all sets of diagnostics, settings and time histories starting at zero", "no test runs a diagnostic",
      ["src/diagnostic/diagnostic.cpp", "src/diagnostic/diagnostic.hpp"],
      [("schedule and file names", "src/diagnostic/diagnostic.cpp"), ("file output", "src/diagnostic/diagnostic.t")],
      "stateful property-based testing against a model of schedule and file contents",
      "up to six diagnostics of four classes, up to 16 steps, positive intervals and clocks starting at zero"),
    P("P26", "Grids written to HDF5 files are found there and read back unchanged",
      "Whatever the distribution over the processes, ghost cells, storage layout, element type and active processes, a written "
      "data set holds every cell of the global grid in order and its attributes, under the name or numbered name asked for, and nothing else, also from a copied stream. "
      "Reading it with any other distribution restores every inner cell and touches no other; the same holds through the grid diagnostic, also "
      "when appending, and the grid reader.",
      ["inputs", "histories", "schedules"], "all grids, distributions and sequences of files and data sets", "no test touches HDF5 files",
      ["src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/hdfdiagnostic.t"],
      [("streams and naming", "src/diagnostic/hdfdiagnostic.cpp"), ("data transfer", "src/diagnostic/hdfdiagnostic.t")],
      "property-based testing: round trips and inspection of the files with the HDF5 library alone, 1 to 4 processes",
      "ranks 1 to 4, three element types, two files with up to four data sets each; without parallel HDF5 one process and no ghost cells"),
    P("P27", "The bibliography lists every reference once, with all it was given",
      "After any history of adding references of any kind, the BibTeX output holds each key exactly once, with the publication type and "
      "exactly the non-empty fields of the reference first added under it, and is well formed; the document cites each key once and gives "
      "every description added for it once.",
      ["histories", "inputs"], "all histories of added references", "no test covers the bibliography",
      ["src/tools/literature.cpp", "src/tools/literature.hpp"], [("records and output", "src/tools/literature.cpp")],
      "stateful property-based testing against a set model; output parsed back",
      "thirteen kinds of references, all fields, up to eight additions over seven keys"),
    P("P28", "Text and byte streams of grids and items carry every value in order",
      "Printing a grid or array gives every value once, the first index running fastest, one line per row, for every layout and extent. "
      "Packing any container of items into a byte buffer and iterating over the buffer, or over a copy of its bytes, gives the same items "
      "in the same order, also when the buffer is used again.",
      ["inputs", "histories"], "all grids up to rank 5 and all containers", "no test covers them",
      ["src/datastream.hpp", "src/util/databuffer.hpp"], [("text", "src/datastream.t"), ("bytes", "src/util/databuffer.t")],
      "property-based testing: round trips", "ranks 1 to 5, three element types; containers of up to 24 items of five types"),
    P("P29", "Numeric and checking helpers compute what they are defined to",
      "Minimum, maximum, sign, vector product, sum and average give exactly what their definitions say for all arguments, without changing "
      "their operands, and random integers lie within the requested range. A requirement throws exactly when it is not met, with the place and the "
      "message, and unique ids are never given twice.",
      ["inputs"], "all arguments", "no test covers them",
      ["src/functions.hpp", "src/functions.cpp", "src/algo.hpp", "src/util/exceptions.hpp", "src/util/unique.hpp"],
      [("numeric functions", "src/functions.hpp"), ("requirements", "src/util/exceptions.hpp")],
      "property-based testing against definitions", "int, long and double arguments"),
    P("P30", "Variables keep their type, access and identity through copies and assignments",
      "A variable never changes its type, and one that is read only is never assigned to: such an assignment is refused and changes nothing. "
      "Every other assignment, like a copy, takes over value or expression, initialisation state and identity of its source (a copy also the "
      "access, which an assignment leaves as it was), and variables not derived from each other have different identities. "
      "Evaluating gives the constant, or the current value of the expression.",
      ["inputs", "histories"], "all histories of creating, copying, assigning and evaluating variables", "tests copy no variables",
      ["src/variables/variables.cpp", "src/variables/variables.hpp"],
      [("variables", "src/variables/variables.cpp")],
      "stateful property-based testing against a model", "variables of three types, constants and external values"),
]


PROPS = [p for p in PROPS if p["id"] in checks.PROPS]


def main():
    known = set()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            assert p["id"] not in known
            known.add(p["id"])
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 /verif/run.py build P14",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 /verif/run.py check %s quick" % p["id"],
            "thorough_cmd": "python3 /verif/run.py check %s thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": [],
        "notes": "No hooks in /repo: every harness compiles /repo/src directly. run.py builds the harness of one property from the "
                 "working tree, runs generated cases in worker processes, shrinks the first failure to a minimal choice sequence, replays "
                 "it three times and writes it to /verif/replays.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
