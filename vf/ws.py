"""Driving causy's workspace commands in a scratch directory."""
import importlib
import json
import os
import re
import sys

DOWN, ENTER = "\x1b[B", "\r"
DYN = '''
import hashlib, json, os
from causy.data_loader import AbstractDataLoader

class Loader(AbstractDataLoader):
    def __init__(self, skip=0):
        self.skip = skip
    def load(self):
        for row in json.load(open("%s"))[self.skip:]:
            yield row
        # somebody else replaces the data while the experiment is running
        if os.path.exists("pending.json"):
            os.replace("pending.json", "%s")
    def hash(self):
        return %s
'''
MOD = '''
import json
from causy.graph_model import graph_model_factory
from causy.serialization import load_algorithm_from_specification
PIPELINE = graph_model_factory(load_algorithm_from_specification(json.loads(%r)))
'''
NOVARS = '''
import json
from causy.graph_model import graph_model_factory
from causy.serialization import load_algorithm_from_specification
ALGORITHM = load_algorithm_from_specification(json.loads(%r))
ALGORITHM.variables = None
PIPELINE = graph_model_factory(ALGORITHM)
'''


def fresh():
    """forget modules imported from the working directory, as a new process would"""
    d = os.getcwd()
    sys.dont_write_bytecode = True
    for m in list(sys.modules):
        f = getattr(sys.modules[m], "__file__", None) or ""
        if f.startswith(d + os.sep) or f.startswith("." + os.sep):
            del sys.modules[m]
    sys.path[:] = [p for p in sys.path if p != d]
    importlib.invalidate_caches()


def cli(args, keys=None, stdin=None, quiet=False):
    """one causy command, as a process of its own would run it"""
    import contextlib
    import logging

    from typer.testing import CliRunner

    from causy.cli import app

    fresh()
    with contextlib.ExitStack() as s:
        if keys is not None:
            from prompt_toolkit.application import create_app_session
            from prompt_toolkit.input import create_pipe_input
            from prompt_toolkit.output import DummyOutput

            inp = s.enter_context(create_pipe_input())
            s.enter_context(create_app_session(input=inp, output=DummyOutput()))
            inp.send_text(keys)
        logging.disable(logging.CRITICAL)
        try:
            r = CliRunner().invoke(app, args, input=stdin)
        finally:
            logging.disable(logging.NOTSET)
    if r.exception is not None and not isinstance(r.exception, SystemExit) and not quiet:
        raise r.exception
    return r


def write_yaml(obj):
    """JSON is YAML"""
    with open("workspace.yml", "w") as f:
        json.dump(obj, f, indent=1)


def read_yaml():
    from ruamel.yaml import YAML

    with open("workspace.yml") as f:
        return json.loads(json.dumps(YAML(typ="safe", pure=True).load(f.read())))


def versions(name):
    """version numbers on disk for an experiment"""
    out = []
    for f in os.listdir():
        m = re.fullmatch(re.escape(name) + r"_(0|[1-9][0-9]*)\.json", f)
        if m:
            out.append(int(m.group(1)))
    return sorted(out)


def contents():
    out = {}
    for f in sorted(os.listdir()):
        if os.path.isfile(f):
            with open(f, "rb") as h:
                out[f] = h.read()
    return out
