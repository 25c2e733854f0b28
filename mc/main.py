"""Entry point inside the project's interpreter: run one check module.

A module with SHARDS = n has its cases dealt out to n forked processes (case
k goes to process k mod n); their counts, state sets and violations are
merged, so the explored space is the same as in one process.
"""
import importlib
import json
import os
import pickle
import sys
import traceback


def cover(path):
    """Development aid: which lines of the code under test run (per pid)."""
    import atexit
    import re
    root = os.path.join(os.environ["VERIF_REPO"], "algotom")
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "cover")

    def line(code, no):
        if code.co_filename.startswith(root):
            f = os.path.relpath(code.co_filename, root)
            if (f, no) not in seen:
                seen.add((f, no))
        return mon.DISABLE

    def save():
        with open(os.path.join(path, "%s_%d.txt" % (re.sub(
                r"\W", "", sys.argv[1]), os.getpid())), "w") as fo:
            fo.writelines("%s:%d\n" % x for x in sorted(seen))
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    atexit.register(save)
    return save


SAVE = None
if os.environ.get("VERIF_COV"):
    SAVE = cover(os.environ["VERIF_COV"])


def explore(mod, ctx):
    from mc import core
    try:
        mod.run(ctx)
    except core.StopExploration:
        pass


def sharded(mod, ctx, n):
    root = os.environ.get("VERIF_SCRATCH", "/tmp")
    pids = []
    sys.stdout.flush()
    for k in range(n):
        out = os.path.join(root, "shard%d.pkl" % k)
        pid = os.fork()
        if pid == 0:
            rc = 3
            try:
                ctx.shard = (k, n)
                ctx.shard_tag = "_%d" % k
                explore(mod, ctx)
                with open(out, "wb") as fo:
                    pickle.dump(ctx.dump(), fo)
                rc = 0
            except BaseException:       # noqa
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            if SAVE is not None:
                SAVE()
            os._exit(rc)
        pids.append((pid, out))
    bad = 0
    for pid, out in pids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad += 1
            continue
        with open(out, "rb") as fo:
            ctx.merge(pickle.load(fo))
    if bad:
        print("HARNESS ERROR: %d worker(s) failed" % bad)
        sys.stdout.flush()
        # a violation found by another worker is still a violation
        os._exit(1 if ctx.violations else 2)


def main():
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 2:
        with open(sys.argv[2]) as fo:
            replay = json.load(fo)
    mod = importlib.import_module("mc.checks." + pid.lower())
    pre = getattr(mod, "before_import", None)
    if pre is not None:
        pre()
    from mc import core
    ctx = core.Ctx(pid, level=getattr(mod, "LEVEL", "model_checking"),
                   rule=getattr(mod, "RULE", ""),
                   assumptions=getattr(mod, "ASSUMPTIONS", []),
                   replay=replay)
    prepare = getattr(mod, "prepare", None)
    if prepare is not None:         # before the workers are forked
        prepare(ctx)
    n = getattr(mod, "SHARDS", 1)
    n = max(1, min(n, os.cpu_count() or 1))
    if n > 1 and replay is None:
        sharded(mod, ctx, n)
    else:
        explore(mod, ctx)
    rc = ctx.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    if SAVE is not None:
        SAVE()
    os._exit(rc)


if __name__ == "__main__":
    main()
