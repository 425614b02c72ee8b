"""Pipeline steps whose results are scripted, to drive the executor with arbitrary actions."""
from typing import Optional, List

from causy.edge_types import UndirectedEdge
from causy.interfaces import (
    ExitConditionInterface, PipelineStepInterface, GeneratorInterface, GraphUpdateHook, BaseGraphInterface, TestResultInterface)

SCRIPT = {}   # step key -> list of results per combination (None | TestResult | list)
LOG = []      # (step key, combination, live ordered pairs seen, unapplied results seen)
HOOKS = []    # (hook, u, v)
RAISE = []    # part of the name of the hooks that raise an error
EXITS = []    # (iteration, actions of the last pass, live ordered pairs) as the exit condition saw them
POST = []     # what post update hooks were given


def live(graph):
    """what can be seen of the graph: directions with their type and value"""
    return frozenset((e.u.id, e.v.id, e.edge_type.name, tuple(sorted((e.metadata or {}).items()))) for e in graph.retrieve_edges())


class ScriptGenerator(GeneratorInterface):
    def generate(self, graph, graph_model_instance_):
        key = self.every_nth  # reuse a declared integer field as the script key
        script = SCRIPT[key]
        if "passes" in script:  # another script for every pass of a loop, nothing after the last one
            script["results"] = script["passes"].pop(0) if script["passes"] else [None] * len(script["results"])
        n = len(script["results"])
        if self.chunked:
            size = SCRIPT[key]["chunk"]
            for i in range(0, n, size):
                yield [[str(k)] for k in range(i, min(n, i + size))]
        else:
            for k in range(n):
                yield [str(k)]


class ScriptedStep(PipelineStepInterface):
    parallel: bool = False
    chunk_size_parallel_processing: int = 1

    def process(self, nodes, graph, unapplied_actions=None):
        key = self.generator.every_nth
        k = int(nodes[0])
        seen = None if unapplied_actions is None else list(unapplied_actions)
        LOG.append((key, k, live(graph), seen))
        return SCRIPT[key]["results"][k]


class ExitAfter(ExitConditionInterface):
    """stop when a pass did nothing, or after `limit` passes"""
    limit: int = 99

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        EXITS.append((iteration, None if actions_taken is None else list(actions_taken), live(graph)))
        return iteration >= self.limit or (iteration > 0 and not actions_taken)


def _hook(name):
    def run(self, graph, edge):
        HOOKS.append((name, edge.u.id, edge.v.id, self.name, live(graph)))
        if RAISE and RAISE[0] in name:
            raise RuntimeError("an error in a hook")

    return run


class RecordingEdge(UndirectedEdge):
    name: str = "RECORDING"


for _n in ("pre_edge_remove_hook", "post_edge_remove_hook", "pre_edge_update_hook", "post_edge_update_hook",
           "pre_edge_type_change_hook", "post_edge_type_change_hook"):
    setattr(RecordingEdge, _n, _hook(_n))


class DropMarked(GraphUpdateHook):
    def execute(self, graph: BaseGraphInterface, updates: List[TestResultInterface]) -> Optional[List[TestResultInterface]]:
        return [u for u in updates if not (u.data or {}).get("drop")]


class Reverse(GraphUpdateHook):
    def execute(self, graph: BaseGraphInterface, updates: List[TestResultInterface]) -> Optional[List[TestResultInterface]]:
        return list(reversed(updates))


class Record(GraphUpdateHook):
    def execute(self, graph: BaseGraphInterface, updates: List[TestResultInterface]) -> Optional[List[TestResultInterface]]:
        POST.append((list(updates), live(graph)))
