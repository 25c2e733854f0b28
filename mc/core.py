"""Shared explorer bookkeeping: cases, states, violations, evidence, replay.

A check enumerates *cases* (an input assignment, an operation history, a
schedule, a fault position).  Each case has a stable id and is executed on the
real code of /repo; its result is compared with a reference model.  The
counts in the evidence file are measured here, on the run:

  states       distinct configurations explored (hash of what ctx.state gets,
               or the case id when the check registers none)
  transitions  calls made on the implementation (ctx.step)
  traces       cases executed to completion and compared with the model
"""
import fnmatch
import hashlib
import json
import os
import shutil
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")

warnings.simplefilter("ignore")


class Violation(AssertionError):
    """The reference model and the implementation disagree."""


class StopExploration(Exception):
    """Enough violations were collected."""


def digest(obj):
    """Stable hash of nested containers, arrays and scalars."""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, obj)
    return h.digest()


def _feed(h, obj):
    if isinstance(obj, np.ndarray):
        h.update(str((obj.shape, obj.dtype.str)).encode())
        h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(b"(")
        for o in obj:
            _feed(h, o)
        h.update(b")")
    elif isinstance(obj, dict):
        for k in sorted(obj, key=repr):
            _feed(h, k)
            _feed(h, obj[k])
    else:
        h.update(repr(obj).encode())


def short(obj, limit=400):
    if isinstance(obj, np.ndarray):
        s = "array%s %s" % (obj.shape, np.array2string(
            obj, threshold=24, precision=5, separator=","))
    else:
        s = repr(obj)
    s = " ".join(s.split())
    return s if len(s) <= limit else s[:limit] + "..."


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fo:
            for line in fo:
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                parts = line[len("known: "):].split(None, 2)
                if len(parts) < 3 or parts[0] != "property=" + pid:
                    continue
                out.append((parts[1][len("case="):], parts[2]))
    return out


class Ctx:
    MAX_VIOLATIONS = int(os.environ.get("VERIF_MAX", 6))

    def __init__(self, pid, level="model_checking", rule="", assumptions=(),
                 replay=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.replay = replay
        self.known = load_known(pid)
        self.known_hit = {}
        self.violations = []
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.rejected = 0
        self._states = set()
        self._outcomes = set()
        self._trivial = 0
        self.samples = []
        self._groups = {}
        self.extra = {}
        self.exhaustive = True
        self._nscratch = 0
        self._cur = None
        self.shard = (0, 1)
        self._index = 0

    # ---------------------------------------------------------------- tiers
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------- counting
    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self._nstate_calls = getattr(self, "_nstate_calls", 0) + 1
        self._states.add(digest(obj))

    def outcome(self, obj):
        self._outcomes.add(digest(obj))

    def selected(self, cid):
        if self.replay is None:
            return True
        return self.replay.get("case") == cid

    # ----------------------------------------------------------------- case
    def case(self, cid, fn, *args, **kwargs):
        """Execute one case.  ``fn`` raises Violation (or returns an outcome
        object that is hashed).  An exception that escapes from the code under
        test is a violation too: every case is built from valid inputs."""
        if not self.selected(cid):
            return None
        self._index += 1
        if self._index % self.shard[1] != self.shard[0] and \
                self.replay is None:
            return None
        self._cur = cid
        self.evaluations += 1
        group = cid.split("/", 1)[0]
        self._groups[group] = self._groups.get(group, 0) + 1
        nstates = getattr(self, '_nstate_calls', 0)
        try:
            out = fn(*args, **kwargs)
        except Violation as e:
            self.fail(cid, str(e))
            return None
        except (KeyboardInterrupt, StopExploration):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb
                     if os.path.abspath(f.filename).startswith(
                         os.path.join(REPO, "algotom"))]
            jit = type(e).__module__.startswith("numba")
            if where or jit:
                last = where[-1] if where else tb[-1]
                self.fail(cid, "raised %s: %s (at %s:%s)" % (
                    type(e).__name__, short(str(e), 200),
                    os.path.relpath(last.filename, REPO), last.name))
                return None
            print("HARNESS ERROR in case", cid)
            raise
        self.traces += 1
        if getattr(self, '_nstate_calls', 0) == nstates:
            self._states.add(digest(("case", cid)))
        if out is not None:
            self._outcomes.add(digest(out))
        if len(self.samples) < 12 and self._groups[group] <= 2:
            self.samples.append({"case": cid, "outcome": short(out, 160)})
        return out

    def fail(self, cid, detail):
        for pat, what in self.known:
            if fnmatch.fnmatchcase(cid, pat):
                if pat not in self.known_hit:
                    self.known_hit[pat] = (what, cid, detail)
                return
        path = self._write_replay(cid, detail)
        self.violations.append((cid, detail, path))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  case %s: %s" % (cid, detail))
        sys.stdout.flush()
        if len(self.violations) >= self.MAX_VIOLATIONS:
            self.exhaustive = False
            raise StopExploration()

    def _write_replay(self, cid, detail):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        name = hashlib.sha1(cid.encode()).hexdigest()[:12] + ".json"
        path = os.path.join(d, name)
        with open(path, "w") as fo:
            json.dump({"property": self.pid, "case": cid, "tier": self.tier,
                       "detail": detail,
                       "replay": "python3 %s/run.py %s --tier %s --replay %s"
                                 % (VERIF, self.pid, self.tier, path)},
                      fo, indent=1)
        return path

    # -------------------------------------------------------------- scratch
    def scratch(self, name="s"):
        self._nscratch += 1
        p = os.path.join(SCRATCH, "%s_%s_%d%s" % (
            self.pid, name, self._nscratch,
            getattr(self, "shard_tag", "")))
        os.makedirs(p)
        return p

    @staticmethod
    def drop(path):
        if os.path.abspath(path).startswith(os.path.abspath(SCRATCH) + "/"):
            shutil.rmtree(path, ignore_errors=True)

    # --------------------------------------------------------------- shards
    def dump(self):
        return {k: getattr(self, k) for k in (
            "known_hit", "violations", "evaluations", "transitions",
            "traces", "rejected", "_states", "_outcomes", "samples",
            "_groups", "extra", "exhaustive")}

    def merge(self, d):
        for k in ("evaluations", "transitions", "traces", "rejected"):
            setattr(self, k, getattr(self, k) + d[k])
        self._states |= d["_states"]
        self._outcomes |= d["_outcomes"]
        self.violations += d["violations"]
        self.samples = (self.samples + d["samples"])[:12]
        for k, v in d["known_hit"].items():
            self.known_hit.setdefault(k, v)
        for k, v in d["_groups"].items():
            self._groups[k] = self._groups.get(k, 0) + v
        for k, v in d["extra"].items():
            old = self.extra.get(k)
            if isinstance(v, (int, float)) and isinstance(old, (int, float)):
                self.extra[k] = old + v
            else:
                self.extra.setdefault(k, v)
        self.exhaustive = self.exhaustive and d["exhaustive"]

    # --------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        cov = {
            "states": len(self._states),
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self._outcomes),
            "rule": self.rule,
            "samples": self.samples,
            "exhaustive": bool(self.exhaustive),
            "groups": self._groups,
        }
        if self.rejected:
            cov["rejected_inputs_agreed"] = self.rejected
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov, "wall_s": round(wall, 2),
              "violations": len(self.violations),
              "assumptions": self.assumptions}
        if self.replay is None:
            d = os.path.join(VERIF, "evidence")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, self.pid + ".json"), "w") as fo:
                json.dump(ev, fo, indent=1, default=str)
        for pat, (what, cid, detail) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s [case %s: %s]" % (
                self.pid, what, cid, detail))
        print("%s %s: %d cases, %d states, %d transitions, %d distinct "
              "outcomes, %d violation(s), %.1fs" % (
                  self.pid, self.tier, self.evaluations, len(self._states),
                  self.transitions, len(self._outcomes),
                  len(self.violations), wall))
        if self.evaluations == 0 and self.replay is None:
            print("HARNESS ERROR: nothing explored")
            return 2
        return 1 if self.violations else 0


# ------------------------------------------------------------------ oracles
def check(cond, msg, *vals):
    if not cond:
        raise Violation(msg + (": " + "; ".join(short(v, 160) for v in vals)
                               if vals else ""))


def same(got, want, what, rtol=1e-4, atol=None):
    """Numerical agreement up to float32 rounding (so that a re-ordered sum in
    the implementation does not count as a difference)."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape,
                                                       want.shape))
    if got.size == 0:
        return
    g = got.astype(np.complex128 if np.iscomplexobj(got) else np.float64)
    w = want.astype(np.complex128 if np.iscomplexobj(want) else np.float64)
    nan_g, nan_w = np.isnan(g), np.isnan(w)
    if (nan_g != nan_w).any():
        raise Violation("%s: NaN pattern differs: got %s expected %s" % (
            what, short(got, 120), short(want, 120)))
    ok = ~nan_w
    inf = ok & (np.isinf(w) | np.isinf(g))
    if (g[inf] != w[inf]).any():
        raise Violation("%s: infinities differ" % what)
    ok &= ~inf
    if not ok.any():
        return
    scale = np.max(np.abs(w[ok]))
    tol = rtol * scale + (1e-6 if atol is None else atol)
    diff = np.abs(g - w)
    diff[~ok] = 0.0
    if diff.max() > tol:
        pos = np.unravel_index(np.argmax(diff), diff.shape)
        raise Violation("%s: at %s got %r, expected %r (max diff %.3g, tol "
                        "%.3g); got %s expected %s" % (
                            what, tuple(int(p) for p in pos),
                            got[pos].item(), want[pos].item(), diff.max(),
                            tol, short(got, 120), short(want, 120)))


def exact(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape,
                                                       want.shape))
    if not np.array_equal(got, want):
        bad = np.argwhere(got != want)
        raise Violation("%s: differs at %d of %d positions, first %s; got %s "
                        "expected %s" % (what, len(bad), got.size,
                                         bad[0].tolist() if len(bad) else "",
                                         short(got, 120), short(want, 120)))


def raises(fn, exc=(ValueError,)):
    try:
        fn()
    except exc:
        return True
    except BaseException as e:      # noqa
        return type(e).__name__
    return False


class Lcg:
    """Deterministic filler values (no dependence on numpy's generators)."""

    def __init__(self, seed=1):
        self.s = (seed * 2654435761 + 12345) & 0xFFFFFFFF

    def next(self):
        self.s = (1664525 * self.s + 1013904223) & 0xFFFFFFFF
        return self.s

    def array(self, shape, lo=0.0, hi=1.0, dtype=np.float32):
        n = int(np.prod(shape)) if shape else 1
        v = np.array([self.next() / 4294967296.0 for _ in range(n)])
        return (lo + (hi - lo) * v).reshape(shape).astype(dtype)


def fill(shape, seed=1, lo=0.0, hi=1.0, dtype=np.float32):
    return Lcg(seed).array(shape, lo, hi, dtype)


def quiet(fn, *args, **kwargs):
    """Call with stdout/stderr text of the code under test swallowed."""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*args, **kwargs)
