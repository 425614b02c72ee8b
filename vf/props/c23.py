import json
import os
import sys

from hypothesis import strategies as st

from vf.core import Gen
from vf import algos, ws
from vf.scratch import scratch

RULE = ("a directory tree with a workspace and algorithm files inside, above and beside it (siblings whose names start "
        "with the workspace's), symbolic links to files and directories in and out, and a file reference to any of them "
        "written relative, absolute, with detours, through links or leaving a linked directory by '..' (with another file where the plain text of the reference would lead): loading it must succeed exactly if the file really "
        "lies inside of the workspace, and no file outside may even be opened; the same reference through the UI's "
        "algorithm endpoint and a workspace execute must never serve or open a file outside. Non-trivial: the file lies outside or "
        "the reference goes through a link or a detour.")
ASSUMPTIONS = ["no concurrent change of the file system"]

_opened = None


def _hook(event, args):
    if _opened is not None and event == "open" and isinstance(args[0], (str, bytes)):
        _opened.append(os.fsdecode(args[0]))


_installed = False


def install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True


PLACES = ["in", "in/sub", "in/sub/deep", "out", "up", "work-evil", "workspace", "work2/sub", "other"]
LINKS = [["none"], ["file", "in"], ["file", "out"], ["dir", "in"], ["dir", "out"], ["file", "work-evil"], ["chain", "out"]]
STYLES = ["relative", "absolute", "detour", "dot", "double slash", "via up", "link up"]
JUMPS = ["sub/deep", "sub/deep/er", "../elsewhere/k", "../elsewhere"]  # where the link of the style "link up" leads to


@st.composite
def cases(draw):
    return {"place": draw(st.sampled_from(PLACES)), "link": draw(st.sampled_from(LINKS)), "style": draw(st.sampled_from(STYLES)),
            "fmt": draw(st.sampled_from(["json", "yml"])), "through": draw(st.sampled_from(["function", "function", "api", "execute"])),
            "cwd": draw(st.sampled_from(["work", "work/nested", "a b"])), "name": draw(st.sampled_from(["algo", "secret file", "ä"])),
            "jump": draw(st.sampled_from(JUMPS))}


STEP = {"cls": "CalculatePearsonCorrelations", "threshold": None, "display_name": None, "chunk": None, "parallel": False,
        "sync": None, "generator": None}
SECRET = "SECRET-7f3a"


def containment(c, t):
    global _opened
    from causy.serialization import load_algorithm_by_reference
    from pydantic_yaml import to_yaml_str

    install()
    a = algos.construct({"name": SECRET, "ui": False, "none": False, "pre": None, "edge_types": ["Directed", "Undirected"],
                         "steps": [STEP], "variables": []})
    with scratch() as root:
        cwd = os.path.join(root, c["cwd"])
        os.makedirs(cwd)
        base = {"in": cwd, "in/sub": cwd + "/sub", "in/sub/deep": cwd + "/sub/deep", "out": root + "/elsewhere", "up": os.path.dirname(cwd),
                "work-evil": cwd + "-evil", "workspace": cwd + "space", "work2/sub": cwd + "2/sub", "other": root + "/wor"}[c["place"]]
        os.makedirs(base, exist_ok=True)
        target = os.path.join(base, c["name"] + "." + c["fmt"])
        with open(target, "w") as f:
            f.write(json.dumps(a.model_dump()) if c["fmt"] == "json" else to_yaml_str(a))
        path = target
        if c["link"][0] != "none":
            where = {"in": cwd, "out": root + "/linked", "work-evil": cwd + "-evil"}[c["link"][1]]
            os.makedirs(where, exist_ok=True)
            if c["link"][0] == "file":
                path = os.path.join(where, "link." + c["fmt"])
                os.symlink(target, path)
            elif c["link"][0] == "dir":
                os.symlink(base, os.path.join(where, "linkdir"))
                path = os.path.join(where, "linkdir", os.path.basename(target))
            else:
                os.symlink(target, os.path.join(where, "first." + c["fmt"]))
                path = os.path.join(cwd, "second." + c["fmt"])
                os.symlink(os.path.join(where, "first." + c["fmt"]), path)
        os.makedirs(os.path.join(cwd, "x"), exist_ok=True)
        rel = os.path.relpath(path, cwd)
        decoy = None
        jump = os.path.normpath(os.path.join(cwd, c.get("jump", "sub/deep")))
        os.makedirs(jump, exist_ok=True)
        os.symlink(jump, os.path.join(cwd, "jump"))
        up = os.path.join("jump", os.path.relpath(path, jump))  # the '..' after the link leave where the link leads to, not cwd
        lexical = os.path.normpath(os.path.join(cwd, up))
        if c["style"] == "link up" and lexical != target and lexical.startswith(root + os.sep) and not os.path.lexists(lexical):
            os.makedirs(os.path.dirname(lexical), exist_ok=True)
            decoy = lexical
            a.name = "DECOY"
            with open(decoy, "w") as f:
                f.write(json.dumps(a.model_dump()) if c["fmt"] == "json" else to_yaml_str(a))
        ref = {"link up": up, "relative": rel, "absolute": path, "detour": os.path.join("x", "..", rel), "dot": "./" + rel, "double slash": rel.replace("/", "//"),
               "via up": os.path.join("..", os.path.basename(cwd), rel)}[c["style"]]
        os.chdir(cwd)
        inside = os.path.realpath(ref) == os.path.realpath(target) and \
            (os.path.realpath(ref) + os.sep).startswith(os.path.realpath(cwd) + os.sep)
        assert os.path.samefile(ref, target)
        out, leak = None, ""
        client = None
        if c["through"] == "api":
            from fastapi.testclient import TestClient
            from causy.ui.server import _create_ui_app, _set_workspace

            client = TestClient(_create_ui_app(with_static=False))
        elif c["through"] == "execute":
            ws.write_yaml({"name": "w", "author": "a", "pipelines": {"p": {"type": "file", "reference": ref}},
                           "dataloaders": {"d": {"type": "json", "reference": "rows.json", "options": None}},
                           "experiments": {"e": {"pipeline": "p", "dataloader": "d", "variables": {}}}})
            with open("rows.json", "w") as f:
                json.dump([{"a": float(i % 3), "b": float(i % 4)} for i in range(10)], f)
        _opened = []
        try:
            if c["through"] == "function":
                try:
                    name = load_algorithm_by_reference("file", ref).name
                    out = name == SECRET
                    t.check(name != "DECOY", f"file reference {ref!r} (that is {target}) loaded {decoy}")
                except ValueError as e:
                    out, leak = False, str(e)
            elif c["through"] == "api":
                from urllib.parse import quote

                r = client.get("/api/v1/algorithm/file/" + quote(ref, safe=""))
                out, leak = r.status_code == 200, r.text
            else:
                r = ws.cli(["workspace", "execute"], quiet=True)
                out = bool(ws.versions("e"))
                leak = r.output
        finally:
            seen, _opened = _opened, None
        stray = decoy and not decoy.startswith(os.path.realpath(cwd) + os.sep) and any(os.path.exists(p) and os.path.samefile(p, decoy) for p in seen)
        hit = [p for p in seen if os.path.exists(p) and os.path.samefile(p, target)]
        os.chdir(root)
    what = f"file reference {ref!r} in {cwd} (the file is {target}) through {c['through']}"
    t.check(not stray, f"{what}: {decoy} outside of the workspace was opened")
    if not inside:
        t.check(not out, f"{what}: a file outside of the workspace was loaded")
        t.check(SECRET not in leak or c["through"] == "execute", f"{what}: content of a file outside was served")
        t.check(not hit, f"{what}: the file outside of the workspace was opened")
    elif c["through"] != "api":
        t.check(out, f"{what}: a file inside of the workspace was refused")
    elif "/" not in ref and ".." not in ref:
        t.check(out and SECRET in leak, f"{what}: a file inside of the workspace was not served")
    t.nontrivial(not inside or c["link"][0] != "none" or c["style"] != "relative")
    t.label("inside" if inside else "outside")
    t.label(c["through"])
    t.label("leaves a linked directory by '..'", decoy is not None)


SUBS = [
    Gen("containment", cases, containment, quick=1920, thorough=10000),
]
