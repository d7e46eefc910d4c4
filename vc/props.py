"""What each check builds: harness programs, the sources they link, and the translation unit handed to the verifier."""

SRC = ["tree.cpp", "container.cpp", "data.cpp", "partition_tracker.cpp", "cutpoint_candidates.cpp", "leaf_model.cpp", "random_effects.cpp"]
HARNESS = {
    "h_tree": ["tree.cpp", "container.cpp", "data.cpp", "partition_tracker.cpp"],
    "h_track": ["tree.cpp", "container.cpp", "data.cpp", "partition_tracker.cpp", "cutpoint_candidates.cpp"],
    "h_model": ["tree.cpp", "container.cpp", "data.cpp", "partition_tracker.cpp", "cutpoint_candidates.cpp", "leaf_model.cpp", "random_effects.cpp"],
    "h_rfx": ["random_effects.cpp", "data.cpp"],
}
TREE = ["tree.cpp"]
# property -> (harness programs, sources of the verified translation unit, headers)
PROPS = {
    "C01": (["h_tree"], ["tree.cpp"], []),
    "C02": (["h_tree"], ["tree.cpp"], []),
    "C03": (["h_tree"], ["tree.cpp"], []),
    "C04": (["h_tree"], ["tree.cpp", "container.cpp"], []),
    "C05": (["h_tree"], ["tree.cpp", "container.cpp"], []),
    "C06": (["h_tree"], ["tree.cpp", "container.cpp"], []),
    "C07": (["h_tree"], ["tree.cpp"], ["kernel.h"]),
    "C08": (["h_track"], ["tree.cpp", "partition_tracker.cpp"], []),
    "C09": (["h_track"], ["tree.cpp", "partition_tracker.cpp"], []),
    "C10": (["h_track", "h_model"], ["tree.cpp", "partition_tracker.cpp"], ["tree_sampler.h"]),
    "C11": (["h_track"], ["tree.cpp", "cutpoint_candidates.cpp"], []),
    "C12": (["h_model"], ["leaf_model.cpp"], ["tree_sampler.h"]),
    "C13": (["h_model"], ["leaf_model.cpp"], []),
    "C14": (["h_model"], ["tree.cpp", "partition_tracker.cpp", "random_effects.cpp"], ["tree_sampler.h"]),
    "C15": (["h_model"], ["leaf_model.cpp"], ["tree_sampler.h"]),
    "C16": (["h_model"], ["tree.cpp", "random_effects.cpp"], ["variance_model.h", "ensemble.h"]),
    "C17": (["h_rfx"], ["random_effects.cpp"], []),
    "C18": (["h_rfx"], ["random_effects.cpp"], []),
    "C19": (["h_rfx"], ["data.cpp"], []),
    "C20": (["h_track"], ["tree.cpp", "partition_tracker.cpp"], ["tree_sampler.h"]),
    "C24": (["h_rfx"], ["random_effects.cpp"], []),
}
EFFORT = {"quick": 4, "thorough": 120}
EFFORT_OVERRIDE = {}

def tu_text(pid, repo):
    h, srcs, hdrs = PROPS[pid]
    return "".join('#include "%s/src/%s"\n' % (repo, s) for s in srcs) + "".join('#include <stochtree/%s>\n' % x for x in hdrs)
