"""What each property's check runs: binaries, check functions, numbers of cases."""

MPIOPT = {"hang-ms": 40000}

PARSER = dict(name="h_parser", src=["h_parser.cpp"], lib="vars", flags=["-O0"])

BLOCK = dict(name="h_block", src=["h_block.cpp"], lib="vars", flags=["-O0"])

OUT = dict(name="h_out", src=["h_out.cpp"], lib="out", flags=["-O0"])

PROPS = {
    "P01": dict(
        bins=[dict(name="h_array", src=["h_array.cpp"] + ["h_array_%s.cpp" % x for x in "abcdef"], flags=["-O0"], lib="none")],
        fns=[dict(bin="h_array", fn="array_machine", quick=400000, thorough=20000000),
             dict(bin="h_array", fn="array_construct", quick=100000, thorough=3000000)],
        rule="random operation sequences over 4 arrays (int/long/float/double, lengths 1,2,3,4,5,7,10), 34 expression shapes, "
             "mirrored on std::array; non-trivial: at least two operations, or a mixed-type construction case",
    ),
    "P02": dict(
        bins=[dict(name="h_range", src=["h_range.cpp"], lib="none", config="kokkos")],
        fns=[dict(bin="h_range", fn="range_iterate", quick=120000, thorough=6000000),
             dict(bin="h_range", fn="range_grow", quick=80000, thorough=3000000),
             dict(bin="h_range", fn="range_kokkos", quick=16000, thorough=600000)],
        rule="random boxes (ranks 1-6, short/int/long/size_t indices, negative and large offsets, empty boxes), "
             "non-trivial: the box has more than one point",
    ),
    "P03": dict(
        bins=[dict(name="h_grid", src=["h_grid.cpp"], lib="none", config="kokkos", flags=["-O0"])],
        fns=[dict(bin="h_grid", fn="grid_addressing", quick=60000, thorough=600000),
             dict(bin="h_grid", fn="grid_addressing_high", quick=12000, thorough=100000),
             dict(bin="h_grid", fn="grid_huge", quick=160, thorough=2000),
             dict(bin="h_grid", fn="grid_addressing_kokkos", quick=16000, thorough=100000)],
        rule="random extents (ranks 1-10, negative and large offsets), all construction and resize forms, all storage "
             "layouts, all index forms, and grids of more than 2^31 cells; non-trivial: more than one cell",
    ),
    "P04": dict(
        bins=[dict(name="h_grid", src=["h_grid.cpp"], lib="none", config="kokkos", flags=["-O0"])],
        fns=[dict(bin="h_grid", fn="grid_sharing", quick=60000, thorough=600000),
             dict(bin="h_grid", fn="grid_sharing_lazy", quick=30000, thorough=300000),
             dict(bin="h_grid", fn="grid_sharing_kokkos", quick=24000, thorough=200000),
             dict(bin="h_grid", fn="lazy_resize", quick=12000, thorough=100000)],
        rule="histories of construct/copy/assign/resize/write/destroy over 5 (sometimes 24) grids against a model of sharing groups, "
             "plus long lazy resize histories; non-trivial: a resize while the data is shared, or a buffer reused",
    ),
    "P05": dict(
        bins=[dict(name="h_grid", src=["h_grid.cpp"], lib="none", config="kokkos", flags=["-O0"])],
        fns=[dict(bin="h_grid", fn="grid_bulk", quick=100000, thorough=1000000)],
        rule="whole-grid fill, += and -= for all pairs of storage layouts and several element types, against cell-wise "
             "arithmetic; non-trivial: more than one cell",
    ),
    "P06": dict(
        bins=[dict(name="h_field", src=["h_field.cpp"], lib="none", flags=["-O0"])],
        fns=[dict(bin="h_field", fn="check_assert", quick=12000, thorough=200000),
             dict(bin="h_field", fn="check_debug", quick=12000, thorough=200000),
             dict(bin="h_field", fn="check_array", quick=2000, thorough=40000),
             dict(bin="h_field", fn="check_subgrid", quick=4000, thorough=100000)],
        rule="accesses just inside, just outside and far outside random grids and sub grids, every index form, each in a "
             "child process; non-trivial: every assert case, debug cases with at least one outside access",
        assumptions=["built without NDEBUG, as the assert policies are meant to be used"],
    ),
    "P07": dict(
        bins=[dict(name="h_field", src=["h_field.cpp"], lib="none", flags=["-O0"])],
        fns=[dict(bin="h_field", fn="view_subgrid", quick=100000, thorough=4000000),
             dict(bin="h_field", fn="view_transform", quick=40000, thorough=1500000)],
        rule="histories of writes through a view and through its grid against one model array; non-trivial: the view has "
             "more than one cell and is smaller than the grid",
    ),
    "P08": dict(
        bins=[dict(name="h_field", src=["h_field.cpp"], lib="none", flags=["-O0"])],
        fns=[dict(bin="h_field", fn="field_geometry", quick=50000, thorough=2000000)],
        rule="random inner ranges, ghost widths, staggering and physical domains, all construction and resize forms, then "
             "copies, assignments and further resizes; every case is non-trivial",
    ),
    "P09": dict(
        bins=[dict(name="h_field", src=["h_field.cpp"], lib="none", flags=["-O0"])],
        fns=[dict(bin="h_field", fn="boundary_regions", quick=150000, thorough=6000000)],
        rule="random domains and ghost widths, every dimension, side and staggering; non-trivial: at least one ghost cell",
    ),
    "P10": dict(
        bins=[dict(name="h_sub", src=["h_sub.cpp"], lib="grid", flags=["-O0"])],
        fns=[dict(bin="h_sub", fn="serial_exchange", quick=60000, thorough=2000000),
             dict(bin="h_sub", fn="serial_data", quick=30000, thorough=500000)],
        rule="random domains, ghost widths, contents and dimension orders against a periodic model; non-trivial: at least "
             "one ghost cell, or a non-empty buffer",
    ),
    "P11": dict(
        bins=[dict(name="h_mpi", src=["h_mpi.cpp"], lib="mpi", config="mpi", flags=["-O0"])],
        fns=[dict(bin="h_mpi", fn="mpi_tiling", quick=6000, thorough=200000, nps=[1, 2, 3, 4, 5, 6, 7, 8], opts=MPIOPT)],
        rule="random global domains (ranks 1-4, any offset) over 1 to 8 processes; non-trivial: more than one process",
        parallel=3,
    ),
    "P12": dict(
        bins=[dict(name="h_mpi", src=["h_mpi.cpp"], lib="mpi", config="mpi", flags=["-O0"])],
        fns=[dict(bin="h_mpi", fn="mpi_exchange", quick=4000, thorough=120000, nps=[1, 2, 3, 4, 5, 6, 7, 8], opts=MPIOPT)],
        rule="random global domains, contents and dimension orders over 1 to 8 processes, every cell of every process "
             "compared with its periodic image; non-trivial: more than one process",
        parallel=3,
    ),
    "P13": dict(
        bins=[dict(name="h_mpi", src=["h_mpi.cpp"], lib="mpi", config="mpi", flags=["-O0"])],
        fns=[dict(bin="h_mpi", fn="mpi_accumulate", quick=3000, thorough=80000, nps=[1, 2, 3, 4, 5, 6, 7, 8], opts=MPIOPT),
             dict(bin="h_mpi", fn="mpi_reduce", quick=4000, thorough=80000, nps=[2, 3, 4, 5, 6, 7, 8, 1], opts=MPIOPT),
             dict(bin="h_mpi", fn="mpi_data", quick=4000, thorough=80000, nps=[2, 3, 4, 5, 6, 7, 8, 1], opts=MPIOPT)],
        rule="random domains, contents, values and buffers over 1 to 8 processes; non-trivial: more than one process",
        parallel=3,
    ),
    "P14": dict(
        bins=[dict(name="h_sub", src=["h_sub.cpp"], lib="grid", flags=["-O0"])],
        fns=[dict(bin="h_sub", fn="equal_factors", quick=60000, thorough=1000000)],
        rule="process counts up to 10^9 over 1-4 dimensions with random weights; non-trivial: more than three processes "
             "and more than one dimension",
    ),
    "P15": dict(bins=[PARSER], fns=[dict(bin="h_parser", fn="parser_values", quick=60000, thorough=2000000),
                                    dict(bin="h_parser", fn="parser_special", quick=4000, thorough=100000)],
        rule="generated setup files; reference interpreter written independently (recursive descent over the tokens, direct "
             "evaluation); non-trivial: accepted file with at least two operators or calls",
    ),
    "P16": dict(bins=[PARSER], fns=[dict(bin="h_parser", fn="parser_layout", quick=16000, thorough=600000),
                                    dict(bin="h_parser", fn="scanner_tokens", quick=16000, thorough=600000)],
        rule="the same token list rendered on one line and with random blanks, control characters, comments and long "
             "tokens; non-trivial: rendered text longer than a scanner buffer",
    ),
    "P17": dict(bins=[dict(PARSER, name="h_parser_ub", san="asan+ub")], fns=[dict(bin="h_parser_ub", fn="parser_bytes", quick=60000, thorough=3000000)],
        rule="byte strings, token soup, mutated programs, deep nesting under AddressSanitizer; non-trivial: over 10 bytes",
    ),
    "P18": dict(bins=[PARSER], fns=[dict(bin="h_parser", fn="parser_errors", quick=60000, thorough=2000000)],
        rule="generated files with injected mistakes against the reference parser's first error; non-trivial: rejected file",
    ),
    "P19": dict(bins=[PARSER], fns=[dict(bin="h_parser", fn="parser_scopes", quick=60000, thorough=2000000),
                                    dict(bin="h_parser", fn="variable_storage", quick=20000, thorough=600000)],
        rule="generated block hierarchies with colliding names, paths, access rights; non-trivial: rejected or has blocks",
    ),
    "P20": dict(bins=[BLOCK], fns=[dict(bin="h_block", fn="block_parameters", quick=40000, thorough=1500000),
                                   dict(bin="h_block", fn="parameter_groups", quick=10000, thorough=200000)],
        rule="generated block classes (parameters of all kinds, arrays of 1-6 components, defaults, read-only, constants) and "
             "setup files; non-trivial: at least two bound parameters",
    ),
    "P21": dict(bins=[BLOCK, PARSER], fns=[dict(bin="h_block", fn="block_dependencies", quick=40000, thorough=1500000),
                                            dict(bin="h_parser", fn="parser_live", quick=20000, thorough=600000)],
        rule="histories of declaring, changing and updating over up to three updaters, compared with a full evaluation; all "
             "live variables updated together while some of them cannot be computed; non-trivial: an update of a non-constant "
             "dependent after a change, or of two or more live variables",
    ),
    "P22": dict(bins=[BLOCK], fns=[dict(bin="h_block", fn="fill_fields", quick=16000, thorough=1000000)],
        rule="generated setup files whose variables depend on the coordinates, up to four fields filled in sequences through "
             "both functions and the filler, every cell compared with the reference interpreter; non-trivial: a fill with a "
             "variable that is not constant",
    ),
    "P23": dict(bins=[BLOCK], fns=[dict(bin="h_block", fn="block_lifecycle", quick=20000, thorough=600000),
                                   dict(bin="h_block", fn="block_containers", quick=10000, thorough=300000)],
        rule="generated block trees; recorded order of all life cycle calls, contents of containers; non-trivial: at least three "
             "blocks, or two blocks in containers",
    ),
    "P24": dict(bins=[BLOCK], fns=[dict(bin="h_block", fn="block_data", quick=40000, thorough=1500000)],
        rule="histories of adding and retrieving data in generated block trees against a model of the lookup; non-trivial: "
             "something is found",
    ),
    "P25": dict(bins=[OUT, dict(name="h_mpidiag", src=["h_mpidiag.cpp"], lib="out", config="mpi", flags=["-O0"])],
        fns=[dict(bin="h_out", fn="diagnostic_schedule", quick=8000, thorough=400000),
             dict(bin="h_mpidiag", fn="mpi_diagnostics", quick=1500, thorough=30000, nps=[1, 2, 3, 4], opts=MPIOPT)],
        rule="a simulation with up to six generated diagnostics of four classes, clocks and "
             "stepping, against a model of who writes what when, including the files' contents; one diagnostic over 1 to 4 "
             "processes of a distributed domain; non-trivial: something is written, more than one process",
        assumptions=["positive intervals; step counter and time start at 0"],
    ),
    "P26": dict(
        bins=[dict(name="h_hdf", src=["h_hdf.cpp"], lib="all", config="mpi+hdf", flags=["-O0"]),
              dict(name="h_hdfs", src=["h_hdf.cpp"], lib="all", config="mpi+hdfs", flags=["-O0"], hflags=["-DHDF_SERIAL"])],
        fns=[dict(bin="h_hdfs", fn="hdf_serial_roundtrip", quick=600, thorough=10000, nps=[1], batches=2, opts=MPIOPT),
             dict(bin="h_hdfs", fn="hdf_serial_diagnostics", quick=500, thorough=8000, nps=[1], batches=2, opts=MPIOPT),
             dict(bin="h_hdf", fn="hdf_roundtrip", quick=1200, thorough=30000, nps=[1, 2, 3, 4], opts=MPIOPT),
             dict(bin="h_hdf", fn="hdf_diagnostics", quick=1000, thorough=20000, nps=[1, 2, 3, 4], opts=MPIOPT)],
        rule="random global boxes over 1 to 4 processes, slabs of any size, ghost cells, several data sets and files, "
             "attributes, inactive processes, copied streams, also without parallel HDF5; files inspected with the HDF5 library and read back with another "
             "distribution; every case is non-trivial",
        parallel=3,
    ),
    "P27": dict(bins=[OUT], fns=[dict(bin="h_out", fn="bibliography", quick=6000, thorough=300000)],
        rule="histories of adding references of all thirteen kinds, with repeated keys; the BibTeX and LaTeX output parsed and "
             "compared with the set of references given; non-trivial: two references, or two descriptions of one",
    ),
    "P28": dict(bins=[OUT], fns=[dict(bin="h_out", fn="streams_text", quick=60000, thorough=2000000),
                                 dict(bin="h_out", fn="streams_bytes", quick=40000, thorough=1500000)],
        rule="random grids (ranks 1-5, two layouts) printed and read back; containers packed into a byte buffer, copied and "
             "iterated; non-trivial: more than one cell or item",
    ),
    "P29": dict(
        bins=[dict(name="h_sub", src=["h_sub.cpp"], lib="grid", flags=["-O0"])],
        fns=[dict(bin="h_sub", fn="helpers", quick=60000, thorough=1000000)],
        rule="random values of three types through every helper against its definition; non-trivial: an average of more than "
             "one value",
    ),
    "P30": dict(bins=[PARSER], fns=[dict(bin="h_parser", fn="variable_values", quick=60000, thorough=2000000)],
        rule="histories of creating, copying, assigning and evaluating variables of all types against a model; non-trivial: an "
             "assignment was refused and another accepted",
    ),
}
