"""Which sub-properties decide which property: (cases per shard, shards, soft time cap in seconds per shard)."""


def sub(harness, name, quick, thorough, **kw):
    return dict(harness=harness, name=name, quick=quick, thorough=thorough, **kw)


ASSUMPTIONS = [
    "p4est_search_reorder (missing from the installed p4est 2.3.6) and the FISHPACK routine hstcrt are represented by the stand-ins in harness/shim.cpp, written from their documentation",
    "PETSc, p4est, LAPACK, OpenMPI and the compiler are trusted",
]

# The generated histories of the other properties, repeated under the sanitizers ("mem") and under two fillings of
# fresh memory ("fill"): (harness, sub-property, ranks, quick cases mem, quick cases fill).
_HISTORIES = [
    ("hps_props", "h_history", 1, 15, 25), ("hps_props", "o_options", 1, 15, 25), ("hps_props", "b_ref", 1, 25, 40), ("hps_props", "f_global", 1, 15, 25),
    ("patch_props", "p_solve", 1, 100, 150), ("patch_props", "f_patch", 1, 60, 100), ("patch_props", "g_family", 1, 600, 800),
    ("mesh_props", "refine", 1, 150, 250), ("mesh_props", "tree", 1, 200, 300), ("mesh_props", "vtk", 1, 80, 120),
    ("alg_props", "mat_algebra", 1, 400, 600), ("alg_props", "mat_solve", 1, 500, 800), ("alg_props", "mat_index", 1, 1000, 1500), ("alg_props", "vec_index", 1, 1000, 1500), ("alg_props", "vec_sequence", 1, 800, 1200), ("alg_props", "interp_ops", 1, 400, 600), ("alg_props", "interpolant", 1, 800, 1200),
    ("misc_props", "options", 1, 600, 1000), ("misc_props", "xml_tree", 1, 300, 500), ("misc_props", "vtk_rect", 1, 300, 500), ("misc_props", "vtk_unstr", 1, 300, 500), ("misc_props", "cache", 1, 600, 1000), ("misc_props", "print", 1, 400, 600), ("misc_props", "app", 1, 300, 500),
    ("mpi_props", "messages", 2, 400, 600), ("mpi_props", "np_tree", 2, 60, 100), ("mpi_props", "np_solve", 2, 12, 25), ("mpi_props", "par_vec", 2, 300, 500), ("mpi_props", "par_mat", 2, 300, 500), ("mpi_props", "np_vtk", 2, 60, 100), ("mpi_props", "np_pvtu", 2, 150, 250),
]
MEMORY = [sub(h, n, (a, 1, 40), (40*a, 1, 600), np=k, mode="asan", watch="mem") for h, n, k, a, b in _HISTORIES] + [sub(h, n, (b, 1, 40), (40*b, 1, 600), np=k, watch="fill") for h, n, k, a, b in _HISTORIES]

CHECKS = {
    "C01": [sub("hps_props", "u_ref", (300, 5, 45), (8000, 6, 900)), sub("hps_props", "u_split", (250, 3, 45), (5000, 4, 900))],
    "C02": [sub("hps_props", "a_ref", (350, 4, 50), (6000, 5, 900)), sub("hps_props", "a_affine", (250, 2, 45), (6000, 3, 900)), sub("hps_props", "a_local", (250, 2, 45), (6000, 3, 900))],
    "C03": [sub("hps_props", "b_ref", (350, 4, 50), (6000, 5, 900)), sub("hps_props", "b_eq", (350, 2, 50), (6000, 3, 900)), sub("hps_props", "b_direct", (200, 2, 45), (5000, 3, 900))],
    "C04": [sub("hps_props", "m_sym", (200, 5, 45), (5000, 6, 900)), sub("hps_props", "m_linear", (300, 3, 50), (5000, 4, 900))],
    "C05": [sub("hps_props", "h_history", (300, 8, 60), (4000, 8, 1200))],
    "C06": [sub("hps_props", "o_options", (400, 8, 60), (4000, 8, 1200))],
    "C07": [sub("patch_props", "p_solve", (1600, 8, 40), (30000, 8, 900))],
    "C08": [sub("hps_props", "f_global", (200, 4, 45), (5000, 4, 900)), sub("patch_props", "f_patch", (600, 4, 40), (20000, 4, 900))],
    "C09": [sub("mpi_props", "np_tree", (3000, 1, 30), (60000, 2, 900), np=2), sub("mpi_props", "np_tree", (3000, 1, 30), (60000, 2, 900), np=4), sub("mpi_props", "np_solve", (500, 1, 40), (10000, 2, 900), np=2), sub("mpi_props", "np_solve", (500, 1, 40), (10000, 2, 900), np=3), sub("mpi_props", "np_solve", (500, 1, 40), (10000, 2, 900), np=4)],
    "C10": [sub("mesh_props", "refine", (3000, 8, 30), (60000, 8, 900))],
    "C11": [sub("mesh_props", "tree", (12000, 8, 40), (300000, 8, 900))],
    "C12": [sub("patch_props", "g_family", (60000, 8, 40), (1500000, 8, 900))],
    "C13": [sub("mesh_props", "vtk", (1500, 8, 30), (30000, 8, 900))] + [sub("mpi_props", "np_vtk", (1000, 1, 20), (20000, 1, 900), np=k) for k in (2, 3, 4)],
    "C14": [sub("misc_props", "xml_tree", (14000, 2, 20), (100000, 2, 900)), sub("misc_props", "vtk_rect", (12000, 3, 20), (100000, 3, 900)), sub("misc_props", "vtk_unstr", (12000, 3, 20), (100000, 3, 900))] + [sub("mpi_props", "np_pvtu", (2500, 1, 20), (50000, 1, 900), np=k) for k in (2, 4)],
    "C15": [sub("alg_props", "mat_algebra", (20000, 8, 30), (200000, 8, 900))],
    "C16": [sub("alg_props", "mat_solve", (30000, 8, 40), (400000, 8, 900))],
    "C17": [sub("alg_props", "mat_index", (60000, 5, 40), (600000, 5, 900)), sub("alg_props", "vec_index", (60000, 3, 40), (600000, 3, 900))],
    "C18": [sub("alg_props", "vec_sequence", (40000, 8, 40), (500000, 8, 900))],
    "C19": [sub("alg_props", "reject", (40000, 4, 30), (80000, 4, 900)), sub("alg_props", "reject", (8000, 4, 40), (30000, 4, 1200), mode="asan")],
    "C20": [sub("alg_props", "interp_ops", (15000, 8, 40), (100000, 8, 900))],
    "C21": [sub("alg_props", "interpolant", (60000, 8, 40), (800000, 8, 900))],
    "C22": [sub("misc_props", "options", (15000, 6, 20), (300000, 6, 900)), sub("misc_props", "options", (3000, 2, 20), (60000, 2, 900), mode="asan")],
    "C23": [sub("mpi_props", "messages", (20000, 1, 30), (600000, 1, 900), np=2), sub("mpi_props", "messages", (20000, 1, 30), (600000, 1, 900), np=3), sub("mpi_props", "messages", (20000, 1, 30), (600000, 1, 900), np=4), sub("mpi_props", "messages", (1000, 1, 10), (20000, 1, 300)), sub("mpi_props", "messages", (3000, 1, 40), (100000, 1, 900), np=2, mode="asan"), sub("mpi_props", "messages", (3000, 1, 40), (100000, 1, 900), np=3, mode="asan")],
    "C24": [sub("misc_props", "cache", (40000, 3, 20), (200000, 3, 900)), sub("misc_props", "timer", (5000, 3, 20), (60000, 3, 900)), sub("misc_props", "app", (20000, 2, 20), (100000, 2, 900))],
    "C25": [sub("mpi_props", n, (12000, 1, 30), (300000, 1, 900), np=k) for n in ("par_vec", "par_mat") for k in (1, 2, 3, 4)] + [sub("mpi_props", n, (2000, 1, 30), (50000, 1, 900), np=2, mode="asan") for n in ("par_vec", "par_mat")],
    "C26": [sub("res_props", "growth", (300, 4, 40), (6000, 4, 900)), sub("res_props", "growth", (200, 1, 40), (4000, 1, 900), np=2), sub("res_props", "growth", (100, 1, 40), (2000, 1, 900), np=3)] + MEMORY,
    "C28": [sub("misc_props", "print", (50000, 4, 20), (400000, 4, 900))] + [sub("mpi_props", "np_log", (4000, 1, 20), (100000, 1, 900), np=k) for k in (1, 2, 3)],
    "C29": [sub("life_props", "life", (60, 4, 60), (1500, 4, 900))],
    "C27": [sub("hps_props", "v_order", (40, 8, 50), (1500, 8, 1200))],
}

_R = "rapidcheck-generated structured cases, shrunk to a replay file; oracle: "
_N = "Randomised exploration against an independent oracle; a pass means no counterexample among the generated cases. Trusts PETSc, p4est, LAPACK, OpenMPI, and the stand-ins for p4est_search_reorder and FISHPACK. "
NOTES = {
    "C01": (_R + "global five-point residual, dense reference solve, split-invariance (metamorphic)", _N),
    "C02": (_R + "dense composite-scheme reference, affine exactness, patch-interior residual", _N),
    "C03": (_R + "dense composite reference with the same boundary rows, boundary-equation residual, direct root data (differential)", _N),
    "C04": (_R + "metamorphic relations (superposition, translation, scaling, mirror, transposition)", _N),
    "C05": (_R + "stateful stage histories compared with freshly built solvers (differential)", _N),
    "C06": (_R + "options-on against options-off runs (differential)", _N),
    "C08": (_R + "five-point solver against the FISHPACK path (differential)", _N),
    "C07": (_R + "dense five-point patch system assembled from the coefficient functions, half-cell derivative identity", _N),
    "C09": (_R + "dense composite reference computed once, node and leaf ownership derived from the leaf set, traversal orders per rank", _N),
    "C10": (_R + "reference refinement and ripple balance on integer quadrants", _N),
    "C11": (_R + "traversal orders computed from the forest's leaf paths; exact sums and assignments", _N),
    "C13": (_R + "files read back with an independent strict XML reader and compared with the reference mesh (round trip)", _N),
    "C12": (_R + "geometry recomputed from the box; child/parent round trip", _N),
    "C14": (_R + "files read back with an independent strict XML reader (round trip), write-twice relation", _N),
    "C22": (_R + "model map of typed values over histories of settings, files and command lines; AddressSanitizer", _N),
    "C23": (_R + "known sent values against received values on every rank, probe for stray messages, AddressSanitizer", _N),
    "C29": (_R + "whole generated programs run as separate processes (alone and under mpirun); state recorded inside, text printed and exit status compared with the script", _N),
    "C28": (_R + "printed text parsed back and compared with the values printed (round trip), captured standard output against independently formatted messages", _N),
    "C24": (_R + "stateful histories against a plain map, summed intervals with real-time bounds, instance identity", _N),
    "C25": (_R + "stateful histories against a plain array gathered from all ranks, live PETSc object count, AddressSanitizer", _N),
    "C26": (_R + "AddressSanitizer and UndefinedBehaviorSanitizer over the generated histories of every other property, bit-equal results under different content of fresh memory, live object, communicator and heap counts over repeated rounds", _N),
    "C15": (_R + "textbook matrix algebra on plain arrays", _N),
    "C16": (_R + "residual of the solution, column-wise and two-step metamorphic relations", _N),
    "C17": (_R + "plain-array reference model of the index operations, round trips", _N),
    "C18": (_R + "operation sequences against a plain-array model", _N),
    "C19": (_R + "index validity model, unchanged-state check, AddressSanitizer for stray accesses", _N),
    "C20": (_R + "definition-level reference of the operators, polynomial reproduction", _N),
    "C21": (_R + "piecewise-linear reference function, metamorphic point insertion", _N),
    "C27": (_R + "manufactured solutions, observed error ratio (metamorphic)", _N),
}
NOT_APPLICABLE = {}
