"""Stopping a call on the real code at every line of algotom it executes.

The lines are found by monitoring one undisturbed run; a later run is stopped
at the chosen visit of the chosen line and something is done there: another
call in another thread (one pre-emption) or an exception (an interruption).
"""
import os
import sys
import threading

from mc.core import REPO

ROOT = os.path.join(os.path.realpath(REPO), "algotom") + os.sep
MON = sys.monitoring
TOOL = MON.DEBUGGER_ID
_inside = {}


class Interrupted(BaseException):
    """Stands for KeyboardInterrupt (which joblib and numba treat alike)."""


def _ours(code):
    f = code.co_filename
    if f not in _inside:
        _inside[f] = os.path.realpath(f).startswith(ROOT)
    return _inside[f]


def _monitored(fn, callback):
    me = threading.get_ident()

    def line(code, number):
        if not _ours(code):
            return MON.DISABLE
        if threading.get_ident() != me:
            return None
        return callback((code.co_filename, number))
    MON.use_tool_id(TOOL, "preempt")
    try:
        MON.register_callback(TOOL, MON.events.LINE, line)
        MON.set_events(TOOL, MON.events.LINE)
        MON.restart_events()
        return fn()
    finally:
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.LINE, None)
        MON.free_tool_id(TOOL)


def lines(fn):
    """(result, the lines of algotom executed by this thread, in order of
    their first visit)."""
    seen = {}

    def visit(where):
        seen[where] = True
        return MON.DISABLE
    return _monitored(fn, visit), list(seen)


def stop(fn, where, action, visit=1):
    """Run fn and call action() right before the given visit of a line."""
    left = [visit]

    def at(here):
        if here != where:
            return MON.DISABLE
        left[0] -= 1
        if left[0] == 0:
            action()
        return MON.DISABLE if left[0] <= 0 else None
    return _monitored(fn, at)


def other_thread(fn, patience=5.0):
    """Run fn in another thread; returns a function that gives its result.

    When the thread cannot finish (it waits for a lock the stopped call
    holds) the stopped call goes on first."""
    box = {}

    def body():
        try:
            box["r"] = fn()
        except BaseException as e:
            box["e"] = e
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(patience)

    def result():
        t.join(120)
        if t.is_alive():
            raise TimeoutError("the other thread never finished")
        if "e" in box:
            raise box["e"]
        return box["r"]
    return result
