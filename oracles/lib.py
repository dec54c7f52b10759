"""Support for concrete oracles: run the real code, compare with a
specification written independently of it."""
import json
import os
import random
import shutil
import signal
import tempfile
import time
import traceback


class Stop(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


class Raises:
    """Expected outcome: one of these exceptions."""

    def __init__(self, *cls):
        self.cls = cls

    def __repr__(self):
        return "raises " + "/".join(c.__name__ for c in self.cls)


class Oracle:
    max_viol = 5

    def __init__(self, pid, seed, thorough, out, secs):
        self.pid, self.seed, self.thorough, self.out = pid, seed, thorough, out
        self.rng = random.Random(seed * 7919 + 17)
        self.cases = 0
        self.seen = set()
        self.samples = []
        self.violations = []
        self.t0 = time.time()
        self.secs = secs
        self.tmp = tempfile.mkdtemp(prefix="verif_oracle_")
        signal.signal(signal.SIGALRM, _alarm)

    def left(self):
        return self.secs * 0.85 - (time.time() - self.t0)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def outcome(self, thunk, secs=30):
        signal.setitimer(signal.ITIMER_REAL, secs)
        try:
            r = ("ok", thunk())
        except CaseTimeout:
            r = ("timeout", None)
        except Exception as e:
            r = ("raise", e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return r

    def eq(self, case, thunk, want, cmp=None, secs=30):
        """thunk() must give want (or raise, when want is a Raises)."""
        if self.left() < 0:
            raise Stop()
        self.cases += 1
        case = str(case)
        self.seen.add(case)
        if len(self.samples) < 5 or self.rng.random() < 0.002 and len(self.samples) < 12:
            self.samples.append(case[:400])
        with open(self.out + ".progress", "w") as f:
            f.write(case)
        kind, val = self.outcome(thunk, secs)
        if isinstance(want, Raises):
            ok = kind == "raise" and isinstance(val, want.cls)
        else:
            try:
                ok = kind == "ok" and (cmp(val, want) if cmp else val == want)
            except Exception as e:
                ok = False
                kind, val = "incomparable", e
        if not ok:
            got = (
                "%s: %s" % (type(val).__name__, val)
                if kind in ("raise", "incomparable")
                else "no answer in %d s" % secs
                if kind == "timeout"
                else repr(val)
            )
            tb = ""
            if kind == "raise":
                tb = "".join(traceback.format_exception(type(val), val, val.__traceback__))[-1500:]
            self.violations.append(dict(case=case, expected=repr(want)[:3000], got=got[:3000], traceback=tb))
            if len(self.violations) >= self.max_viol:
                raise Stop()
        return ok

    def true(self, case, thunk, secs=30):
        return self.eq(case, lambda: bool(thunk()), True, secs=secs)

    def finish(self, err=""):
        shutil.rmtree(self.tmp, ignore_errors=True)
        json.dump(
            dict(
                cases=self.cases,
                distinct=len(self.seen),
                samples=self.samples,
                violations=self.violations,
                error=err,
                secs=time.time() - self.t0,
            ),
            open(self.out + ".tmp", "w"),
            default=str,
        )
        os.replace(self.out + ".tmp", self.out)

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d
