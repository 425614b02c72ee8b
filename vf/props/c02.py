from vf.core import Gen
from vf import graphops

RULE = ("histories of 1-28 graph operations including soft deletion, purge and restore on 2-5 nodes; "
        "every query is compared with a reference (map of ordered pairs with a soft-deleted flag and a "
        "record of removed edges) after every operation. Non-trivial: at least 3 accepted operations "
        "and entries left at the end.")
ASSUMPTIONS = ["single-threaded use of one graph object",
               "what updating an edge while it is soft-deleted does to its value is unspecified (it stays invisible)"]
SUBS = [Gen("soft_history", lambda: graphops.ops_strategy(soft=True), graphops.run_history,
            quick=3200, thorough=80000)]
