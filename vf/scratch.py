import contextlib
import os
import shutil
import sys
import tempfile


@contextlib.contextmanager
def scratch(prefix="vf_case_"):
    """a scratch directory as working directory; sys.path and modules imported from it are undone"""
    d = os.path.realpath(tempfile.mkdtemp(prefix=prefix))
    cwd, path, mods = os.getcwd(), list(sys.path), set(sys.modules)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        sys.path[:] = path
        for m in set(sys.modules) - mods:
            f = getattr(sys.modules[m], "__file__", None) or ""
            if f.startswith(d):
                del sys.modules[m]
        shutil.rmtree(d, ignore_errors=True)
