"""Which harnesses decide which property."""
FIBERS = "ranks interleave only at MPI calls (the library has no other inter-rank channel); MPI behaves as mc/mpi/minimpi.cpp models it"
ONE = "single rank, no threads: the code under test is deterministic, so each enumerated input is one execution"
RULE = ("cases are all choice sequences of each suite's input grammar (bounds listed per suite); a case counts as distinct "
        "when its input hash differs and non-trivial when it ran the code under test to the end of its checks")


def E(*parts, level="exploration", assumptions=(ONE,), **kw):
    return dict(level=level, rule=RULE, parts=[dict(dict(harness=p[0], variant=p[1]), **(p[2] if len(p) > 2 else {})) for p in parts], assumptions=list(assumptions), **kw)


CHECKS = {
    "C01": E(("c01_comm", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C02": E(("c02_dist", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C03": E(("c03_parts", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C18": E(("c18_osh", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C19": E(("c19_write", "mpi"), ("c19_trunc", "asan"), level="fault_enumeration"),
    "C04": E(("c04_indep", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C13": E(("c13_adapt", "mpi"), ("c04_indep", "mpi", dict(suites=["parts2", "seqs"])), assumptions=[FIBERS]),
    "C14": E(("c14_guarantee", "mpi"), ("c04_indep", "mpi", dict(suites=["parts2", "seqs"])), assumptions=[FIBERS]),
    "C15": E(("c15_transfer", "mpi"), ("c04_indep", "mpi", dict(suites=["parts2", "seqs"])), assumptions=[FIBERS]),
    "C21": E(("c21_gmsh", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C20": E(("c20_vtk", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C05": E(("c05_balance", "mpi"), ("c05_balance", "asan", dict(suites=["bipart2", "halves", "strips"], thorough_only=True))),
    "C10": E(("c10_class", "mpi"), ("c10_class", "asan", dict(suites=["angles2", "angles3", "box"], thorough_only=True))),
    "C11": E(("c11_order", "mpi"), ("c11_order", "asan", dict(suites=["by-hilbert", "by-globals", "points2"], thorough_only=True))),
    "C12": E(("c12_compare", "mpi"), ("c32_tools", "mpi", dict(suites=["oshdiff", "series"])), level="model_checking", assumptions=[FIBERS]),
    "C08": E(("c08_adj", "mpi")),
    "C07": E(("c07_sum", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C09": E(("c09_arrays", "mpi")),
    "C16": E(("c16_select", "mpi"), ("c16_select", "asan", dict(suites=["graphs", "marks"], thorough_only=True))),
    "C17": E(("c17_amr", "mpi"), level="model_checking", assumptions=[FIBERS]),
    "C22": E(("c22_lang", "mpi"), ("c22_lang", "asan", dict(suites=["lexers", "files", "yaml", "xmledit", "yamledit", "yamlindent"], thorough_only=True))),
    "C23": E(("c23_expr", "mpi"), ("c23_expr", "asan", dict(suites=["calls", "statements", "conditions"], thorough_only=True))),
    "C24": E(("c24_input", "mpi"), ("c24_input", "asan", dict(thorough_only=True))),
    "C27": E(("c27_linear", "mpi"), ("c27_linear", "asan", dict(thorough_only=True))),
    "C28": E(("c28_metric", "mpi"), ("c28_metric", "asan", dict(suites=["intersect3", "degenerate3", "densities-square", "projections-square", "gradations-cube", "generated-square", "curvature3"], thorough_only=True)), level="model_checking", assumptions=[FIBERS]),
    "C29": E(("c29_shape", "mpi"), ("c29_shape", "asan", dict(suites=["edges", "triangles", "tets", "flat", "lengths", "clip1", "clip2", "clip3", "solids", "polygons", "meshes"], thorough_only=True)), level="model_checking"),
    "C30": E(("c30_recover", "mpi"), ("c30_recover", "asan", dict(suites=["project-line2", "project-square", "project-cube", "derive-line2", "harmonic-square"], thorough_only=True)), level="model_checking", assumptions=[FIBERS]),
    "C31": E(("c31_confined", "mpi"), level="model_checking"),
    "C32": E(("c32_tools", "mpi"), assumptions=[FIBERS]),
    "C33": E(("c33_passes", "mpi"), level="model_checking"),
    "C25": E(("c25_stats", "mpi"), assumptions=[FIBERS]),
    "C34": E(("c34_containers", "asan"), level="model_checking"),
    "C26": E(("c26_memory", "asan"), level="model_checking"),
}
CHECKS["C06"] = E(
    ("c06_threads", "omp"),
    ("c09_arrays", "omp", dict(suites=["each_i32", "arith_i64", "reals", "bytes", "maps", "fans", "wide", "sort1", "sort2", "sort3", "sort4", "small_range", "graphs"])),
    ("c08_adj", "omp", dict(suites=["codes", "edges", "tris2", "quads2", "hex1", "boxes"])),
    ("c03_parts", "omp", dict(suites=["one2", "one3"], thorough_only=True)),
    ("c07_sum", "omp", dict(thorough_only=True)),
    level="model_checking",
    assumptions=["threads of a parallel region switch only at atomics, critical sections, barriers and task operations; every other access is checked "
                 "for races by vector clocks, so a race-free execution covers all interleavings in between",
                 "OpenMP behaves as mc/omp/miniomp.cpp models it (static schedules, sequentially consistent atomics)"])
NOT_APPLICABLE = {}
