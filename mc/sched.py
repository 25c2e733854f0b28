"""Controlled scheduler for worker tasks of the code under test.

The tasks are harness functions handed to the real parallel machinery; they
call ``point`` at their scheduling points and stay blocked there until the
controller releases them.  The controller acts only in quiescent moments (all
workers that can run are blocked), so one choice sequence determines one
execution; stateless depth-first search enumerates all of them.
"""
import threading
import time


class Diverged(RuntimeError):
    pass


class Sched:
    def __init__(self, prefix, total, conc, patience):
        self.cond = threading.Condition()
        self.prefix = list(prefix)
        self.total = total
        self.conc = conc
        self.patience = patience
        self.waiting = {}
        self.finished = 0
        self.choices = []
        self.widths = []
        self.log = []
        self.free = False
        self.done = False
        self.lowered = False

    def point(self, tid, label):
        with self.cond:
            if self.free:
                return
            key = (tid, label)
            self.waiting[key] = False
            self.cond.notify_all()
            while not self.waiting[key] and not self.free:
                self.cond.wait(0.5)
            del self.waiting[key]
            self.log.append(key)

    def finish(self, failed=False):
        with self.cond:
            self.finished += 1
            if failed:
                self.free = True
            self.cond.notify_all()

    def run(self, call):
        """Run ``call`` under the chosen schedule; returns (value, error)."""
        box = {}

        def body():
            try:
                box["value"] = call()
            except BaseException as e:     # noqa
                box["error"] = e
            with self.cond:
                self.done = True
                self.cond.notify_all()
        t = threading.Thread(target=body, daemon=True)
        t.start()
        limit = time.time() + 60
        while True:
            with self.cond:
                start = time.time()
                while not self.done:
                    blocked = [k for k, v in self.waiting.items() if not v]
                    inflight = any(self.waiting.values())
                    want = min(self.conc, self.total - self.finished)
                    if self.free:
                        pass
                    elif not inflight and blocked and len(blocked) >= want:
                        break
                    elif (not inflight and blocked and
                          time.time() - start > self.patience):
                        self.conc = len(blocked)
                        self.lowered = True
                        break
                    if time.time() > limit:
                        self.free = True
                        self.cond.notify_all()
                        raise Diverged("no progress")
                    self.cond.wait(0.05)
                if self.done:
                    break
                enabled = sorted(blocked, key=repr)
                i = len(self.choices)
                c = self.prefix[i] if i < len(self.prefix) else 0
                if c >= len(enabled):
                    self.free = True
                    self.cond.notify_all()
                    raise Diverged("choice %d of %d" % (c, len(enabled)))
                self.choices.append(c)
                self.widths.append(len(enabled))
                self.waiting[enabled[c]] = True
                self.cond.notify_all()
        t.join(30)
        return box.get("value"), box.get("error")


def schedules(execute, limit=None):
    """Depth-first enumeration.  ``execute(prefix)`` returns the Sched."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        s = execute(prefix)
        n += 1
        if s is None:
            continue
        for i in range(len(s.choices) - 1, len(prefix) - 1, -1):
            for alt in range(s.widths[i] - 1, 0, -1):
                stack.append(s.choices[:i] + [alt])
        if limit is not None and n >= limit:
            return n, not stack
    return n, True
