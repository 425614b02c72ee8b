"""lets something else happen at a chosen file system operation of the code under test"""
import contextlib
import os
import sys
import threading

_handlers = []
_installed = False
_busy = threading.local()


def _hook(event, args):
    if not _handlers or event not in ("open", "os.listdir", "os.scandir", "os.rename", "os.link"):
        return
    if getattr(_busy, "on", False):
        return
    _busy.on = True
    try:
        for h in list(_handlers):
            h(event, args)
    finally:
        _busy.on = False


@contextlib.contextmanager
def during(handler):
    """handler(event, args) is called before every open, listing, rename and link"""
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _handlers.append(handler)
    try:
        yield
    finally:
        _handlers.remove(handler)


def writes_to(event, args):
    """name of the file that is about to be written or replaced in the working directory, or None"""
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return None
        if not (isinstance(mode, str) and set(mode) & set("wxa+")) and not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
            return None
    elif event in ("os.rename", "os.link"):
        path = args[1]
        if not isinstance(path, (str, bytes)):
            return None
    else:
        return None
    path = os.fsdecode(path)
    return os.path.basename(path) if os.path.dirname(os.path.abspath(path)) == os.getcwd() else None
