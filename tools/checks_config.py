"""Per check: packages compiled from /repo, sanitizers, extra flags."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = ["IEEE double arithmetic of the build machine; tolerances are stated in the check"]
KIN = {"packages": ["sm_kinematics"]}
PTR = {"packages": ["sm_property_tree"], "libs": ["-lboost_filesystem", "-lboost_system"]}
VST = {"packages": ["sm_property_tree", "sm_value_store"], "libs": ["-lboost_filesystem", "-lboost_system"]}
LOG = {"packages": ["sm_logging"]}
MAR = {"packages": ["sm_matrix_archive"]}
PYM = {"packages": ["sm_kinematics", "sm_property_tree", "sm_value_store", "sm_matrix_archive", "sm_logging", "sm_timing"], "python": True,
       "libs": ["-lboost_serialization", "-lboost_filesystem", "-lboost_system"]}
SCHED = {"san": "sched", "technique": "property-based testing: generated histories and generated thread schedules (controlled scheduler), shrinking, against an explicit oracle",
         "note": "Random search over generated histories and sequentially consistent schedules, with switches between any two memory accesses, under ASan. No alarm means no counterexample among the cases counted in the evidence file. Weak-memory effects are out of reach."}
CHECKS = {
    "P01": KIN,
    "P02": KIN,
    "P03": KIN,
    "P04": KIN,
    "P05": KIN,
    "P06": KIN,
    "P07": KIN,
    "P08": KIN,
    "P09": KIN,
    "P10": KIN,
    "P11": {"packages": ["sm_kinematics"], "libs": ["-lboost_serialization", "-lboost_filesystem", "-lboost_system"]},
    "P12": MAR,
    "P13": MAR,
    "P14": MAR,
    "P15": PTR,
    "P16": VST,
    "P17": PTR,
    "P18": PTR,
    "P19": VST,
    "P20": LOG,
    "P21": LOG,
    "P22": dict(LOG, **SCHED),
    "P23": {"packages": ["sm_timing"]},
    "P24": {"packages": ["sm_timing"], **SCHED, "libs": ["-lboost_thread", "-lboost_system"]},
    "P25": {"packages": ["sm_timing", "sm_boost"]},
    "P26": {"packages": ["sm_common"], "libs": ["-lboost_serialization"]},
    "P28": {"packages": ["sm_eigen", "sm_logging"]},
    "P29": {"packages": ["sm_eigen"]},
    "P30": {"packages": ["sm_kinematics", "sm_property_tree"], "libs": ["-lgtest"]},
    "P27": {"packages": ["sm_common"]},
    "P31": {"packages": ["sm_boost"], **SCHED},
    "P32": PYM,
    "P33": PYM,
    "P34": PYM,
    "P35": PYM,
    "P37": {"packages": ["sm_common"], "sources": ["/repo/sm_matlab/src/Engine.cpp"], "flags": ["-I/repo/sm_matlab/include", "-I%s/lib/fakematlab" % HERE]},
    "P38": {"packages": ["sm_common"], "flags": ["-I/repo/sm_opencv/include", "-I%s/lib/fakecv" % HERE], "libs": ["-lboost_serialization"]},
    "P39": {"packages": ["sm_common", "sm_boost", "sm_eigen"], "flags": ["-DEIGEN_MAX_ALIGN_BYTES=64", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=64"]},
    "P40": dict(MAR, flags=["-I%s/lib/mlang" % HERE, '-DMATLAB_DIR="/repo/sm_matrix_archive/matlab"']),
    "P41": {"packages": ["sm_kinematics", "sm_property_tree", "sm_value_store", "sm_matrix_archive", "sm_logging", "sm_timing"], "san": "tsan",
            "technique": "property-based testing (generated calls of several threads, shrinking) against the results obtained alone, with ThreadSanitizer as the oracle for data races",
            "note": "Random search over generated combinations of calls under ThreadSanitizer, which reports two conflicting accesses that no synchronisation orders, in whatever order they happened to run. No alarm means no counterexample among the cases counted in the evidence file. Standard and Boost shared libraries are not instrumented.",
            "libs": ["-lboost_serialization", "-lboost_filesystem", "-lboost_system"]},
    "P36": dict(MAR, sources=["/repo/sm_matrix_archive/src/lsma.cpp"], flags=["-Dmain=lsma_main"]),
}
