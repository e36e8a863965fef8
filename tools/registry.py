"""What each property's check runs. See DESIGN.md."""
SCHED = ["mc.cpp", "poly.cpp", "progs.cpp", "sched.cpp", "c01.cpp", "obs.cpp", "c03.cpp", "c05.cpp", "c06.cpp", "c17s.cpp", "c09s.cpp", "c13.cpp", "calls.cpp", "c15.cpp", "rays.cpp", "unit.cpp", "main_sched.cpp"]

UNIT = ["mc.cpp", "poly.cpp", "unit.cpp", "rays.cpp", "c08.cpp", "c09.cpp", "c10.cpp", "c11.cpp", "c12.cpp", "c16.cpp", "c17.cpp", "c19.cpp", "main_unit.cpp"]


THREADS = ["mc.cpp", "poly.cpp", "progs.cpp", "sched.cpp", "calls.cpp", "ctl.cpp", "unit.cpp", "c13t.cpp"]

MEM = ["mc.cpp", "poly.cpp", "progs.cpp", "sched.cpp", "calls.cpp", "c05.cpp", "unit.cpp", "c14.cpp"]
ASAN = {"ASAN_OPTIONS": "detect_leaks=0"}


def sched(**k):
    d = {"variant": "plain", "name": "mc_sched", "sources": SCHED}
    d.update(k)
    return d


def unit(**k):
    d = {"variant": "plain", "name": "mc_unit", "sources": UNIT}
    d.update(k)
    return d


ENUM = ["the reference enumerates integer points with its own code; isl is trusted to parse the input "
        "text and to print the constraints of the returned maps",
        "parameters are enumerated over the listed small values only"]
SPACE = ("every program of the families of DESIGN.md"
         " (one to eight statements, one to four loops, dependence distances within 2, non-uniform accesses, program variants given as dependences and as accesses)"
         " under every option configuration that applies"
         " (fusion, tiling, second-level tiling, wavefronts, per-dimension tile sizes, solvers, dfp)"
         ", every instance and dependence instance for the small parameter values")
CHECKS = {
    "C01": {
        "parts": [sched()],
        "states": ["instance_times"], "transitions": ["dependence_instances"], "traces": ["runs"],
        "bounds": SPACE,
        "assumptions": ENUM,
    },
    "C02": {
        "parts": [sched()],
        "states": ["instance_times"], "transitions": ["instance_pairs_distinguished"], "traces": ["runs"],
        "bounds": SPACE,
        "assumptions": ENUM,
    },
    "C03": {
        "parts": [sched()],
        "states": ["parallel_loops_checked", "sequential_loops_checked"], "transitions": ["dependence_instances_at_loops"],
        "traces": ["runs"],
        "bounds": SPACE,
        "assumptions": ENUM,
    },
    "C04": {
        "parts": [sched()],
        "states": ["tile_coordinates_checked"], "transitions": ["inter_tile_dependences"], "traces": ["runs"],
        "bounds": SPACE + "; tiling configurations only",
        "assumptions": ENUM,
    },
    "C07": {
        "parts": [sched()],
        "states": ["remapped_instances"], "transitions": ["remap_rows_evaluated"], "traces": ["runs"],
        "bounds": SPACE,
        "assumptions": ENUM,
    },
    "C18": {
        "parts": [sched()],
        "states": ["dependences_with_metadata", "bands_checked"], "transitions": ["dependence_level_distances"], "traces": ["runs"],
        "bounds": SPACE,
        "assumptions": ENUM,
    },
    "C10": {
        "parts": [unit()],
        "states": ["matrices"], "transitions": ["operations"], "traces": ["library_calls_compared"],
        "bounds": "all matrices of the listed shapes with entries in the listed ranges",
        "assumptions": ["entries small enough that 64-bit intermediate products do not overflow"],
    },
    "C11": {
        "parts": [unit()],
        "states": ["graphs"], "transitions": ["edges"], "traces": ["decompositions_compared"],
        "bounds": "all directed graphs on up to 4 vertices (5 in the thorough tier), every edge order relevant to the traversal",
        "assumptions": [],
    },
    "C05": {
        "parts": [sched()],
        "states": ["instances_executed"], "transitions": ["reads_compared", "conflicting_pairs_ordered"], "traces": ["runs"],
        "bounds": SPACE + "; programs with array accesses, executed in both orders on every parameter value",
        "assumptions": ENUM + ["scheduling failure is not judged for reversed original loops and for two-statement programs with an access 2i, "
                               "for which no solution need lie in the scheduler's search space"],
    },
    "C06": {
        "parts": [sched()],
        "states": ["candidate_hyperplanes"], "transitions": ["distances_evaluated"], "traces": ["runs"],
        "bounds": "",
        "assumptions": ENUM + ["the growth of the distance bound with the parameter is read off parameter values up to 6"],
    },
    "C16": {
        "parts": [unit(), sched()],
        "states": ["systems", "hyperplanes_bounded"], "transitions": ["search_nodes"], "traces": ["solutions_compared", "runs"],
        "bounds": "",
        "assumptions": ["GLPK is judged on bounded systems only: its branch and bound need not terminate on unbounded ones without integer points",
                        "the PIP and Gurobi back ends are not installed"],
    },
    "C08": {
        "parts": [unit(variant="poly")],
        "states": ["sets", "operation_sequences"], "transitions": ["operations"], "traces": ["points_compared"],
        "bounds": "",
        "assumptions": ["coefficients are small enough for 64-bit intermediate products",
                        "pluto_constraints_remove_const_ub and pluto_constraints_project_out_isl (unused) are not covered"],
    },
    "C17": {
        "parts": [unit(), sched()],
        "states": ["objects_converted"], "transitions": ["conversions_compared"], "traces": ["points_compared"],
        "bounds": "",
        "assumptions": ["isl is trusted to report the constraints of its own objects and to parse its notation",
                        "existentially quantified variables are dropped by design: the converted set may only grow"],
    },
    "C09": {
        "parts": [unit(), sched()],
        "states": ["domains", "dependences_checked"], "transitions": ["coefficient_vectors", "strict_vectors", "global_vectors", "independence_vectors"], "traces": ["runs"],
        "bounds": "systems and program families x all coefficient vectors of a box",
        "assumptions": ENUM,
    },
    "C12": {
        "parts": [unit(variant="poly")],
        "states": ["instances", "statements_after"], "transitions": ["dependence_pairs", "midpoints_checked"], "traces": ["programs_split"],
        "bounds": "programs and cuts x parameter values",
        "assumptions": ENUM,
    },
    "C19": {
        "parts": [unit(variant="poly")],
        "states": ["edit_sequences"], "transitions": ["edits"], "traces": ["points_compared", "views_evaluated"],
        "bounds": "start programs x edit sequences x parameter values",
        "assumptions": ENUM,
    },
    "C15": {
        "parts": [sched()],
        "states": ["instances_placed", "candidate_nests"], "transitions": ["component_pairs_separated", "fusion_structures", "fusable_programs"], "traces": ["runs"],
        "bounds": "program families x fusion settings and structures",
        "assumptions": ENUM,
    },
    "C13": {
        "parts": [sched(), {"variant": "ctl", "name": "mc_threads", "sources": THREADS}],
        "states": ["histories", "schedules"], "transitions": ["calls_compared", "context_switches"], "traces": ["histories", "schedules"],
        "bounds": "call histories x option sets",
        "assumptions": ["the reference result of a call comes from the library itself, run once in a fresh process"],
    },
    "C14": {
        "parts": [{"variant": "plain", "name": "mc_mem", "sources": MEM + ["mem.cpp"], "link": ("-rdynamic",)},
                  {"variant": "asan", "name": "mc_mem_asan", "sources": MEM + ["mem_none.cpp"], "env": ASAN}] +
                 [unit(variant="asanpoly", prop=p, env=ASAN, kinds=["crash"]) for p in ("C09", "C10", "C11", "C16", "C17")] +
                 [unit(variant="asanpoly", prop=p, env=ASAN, kinds=["crash"], tiers=["thorough"]) for p in ("C08", "C12", "C19")],
        "states": ["calls_accounted"], "transitions": ["contexts_released"], "traces": ["fill_patterns_compared"],
        "bounds": "call menu, program families and configurations",
        "assumptions": ["isl and GLPK are not instrumented by AddressSanitizer; their heap blocks are accounted for",
                        "the functions that write files or read the environment of the command-line tool are not covered"],
    },
}
