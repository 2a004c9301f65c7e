"""A small property-based testing engine (choice-sequence generation with integrated shrinking).

The project runs on PyPy 3.9, where Hypothesis is not installable, so this engine provides the parts
that are needed: structured generation from a recorded sequence of bounded integer choices, automatic
shrinking of that sequence, replay from a saved sequence, classification counters, known-finding
signatures, and parallel but schedule-independent execution (case i of test t depends only on
VERIF_SEED, t and i).
"""
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("EVOGIL_REPO", "/repo")


class Violation(Exception):
    def __init__(self, message, sig=None):
        super().__init__(message)
        self.message = message
        self.sig = sig


class Reject(Exception):
    pass


class CpuLimit(BaseException):
    pass


class TC:
    """One generated case: every random decision goes through `draw`."""

    MAX_CHOICES = 60000

    def __init__(self, prefix=None, rng=None):
        self.prefix = prefix or []
        self.rng = rng
        self.choices = []
        self.labels = set()
        self.is_nontrivial = False
        self.notes = {}
        self.known = []
        self.known_sigs = ()
        self.cleanups = []

    # -- primitive -----------------------------------------------------------------------------
    def draw(self, n, gen=None):
        """An integer in 0..n. `gen(rng)` customises the distribution while generating."""
        i = len(self.choices)
        if i >= self.MAX_CHOICES:
            raise Reject("too many choices")
        if i < len(self.prefix):
            v = min(max(int(self.prefix[i]), 0), n)
        elif self.rng is None:
            v = 0
        else:
            v = gen(self.rng) if gen is not None else self.rng.randint(0, n)
            v = min(max(v, 0), n)
        self.choices.append(v)
        return v

    # -- structured generators -----------------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def small(self, lo, hi):
        """Integer biased towards lo."""
        n = hi - lo
        return lo + self.draw(n, lambda r: int((n + 1) * r.random() ** 2))

    def size(self, lo, hi, big, p=0.02):
        """A size in lo..hi, and now and then one up to `big`: some faults only show at scale."""
        n = self.int(lo, hi)
        if self.chance(p):
            n = self.int(hi, big)
            self.label("large")
        return n

    def chance(self, p):
        """True with probability p (shrinks to False)."""
        return self.draw(1, lambda r: int(r.random() < p)) == 1

    def bool(self):
        return self.draw(1) == 1

    def pick(self, seq):
        seq = list(seq)
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first."""
        total = sum(w for w, _ in pairs)

        def gen(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1

        return pairs[self.draw(len(pairs) - 1, gen)][1]

    def unit(self):
        """Float in [0, 1), edge-heavy."""
        kind = self.draw(9)
        if kind == 0:
            return 0.0
        if kind == 1:
            return 1.0 - 2.0 ** -self.int(1, 53)
        if kind == 2:
            return 2.0 ** -self.int(1, 60)
        if kind <= 4:
            return self.draw(7) / 8.0
        return self.draw(2 ** 32 - 1) / 2.0 ** 32

    def float(self, lo, hi):
        kind = self.draw(9)
        if kind == 0:
            return lo
        if kind == 1:
            return hi
        if kind <= 4:
            x = lo + (hi - lo) * (self.draw(8) / 8.0)
        elif kind == 5:
            x = lo + (hi - lo) * 2.0 ** -self.int(1, 60)
        else:
            x = lo + (hi - lo) * (self.draw(2 ** 32 - 1) / (2.0 ** 32 - 1))
        return min(hi, max(lo, x))

    def list(self, elem, lo, hi, size=None):
        """A list of lo..hi elements; deletions shrink well because of the continuation bits."""
        if self.rng is not None:
            target = size(self.rng) if size else lo + int((hi - lo + 1) * self.rng.random() ** 1.5)
        else:
            target = lo
        out = []
        while len(out) < hi:
            if len(out) >= lo:
                k = len(out)
                if not self.draw(1, lambda r: 1 if k < target else 0):
                    break
            out.append(elem())
        return out

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - 1 - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def seed(self):
        """Seeds the generators the code under test draws from."""
        s = self.draw(2 ** 31 - 1)
        random.seed(s)
        np = sys.modules.get("numpy")
        if np is not None:
            np.random.seed(s)
        return s

    # -- verdicts ------------------------------------------------------------------------------
    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def note(self, **kw):
        self.notes.update(kw)

    def reject(self, why=""):
        raise Reject(why)

    def fail(self, message, sig=None):
        if sig is not None and sig in self.known_sigs:
            self.known.append((sig, message))
            return
        raise Violation(message, sig)

    def check(self, cond, message, sig=None):
        if not cond:
            self.fail(message() if callable(message) else message, sig)

    def internal(self, owner, *names):
        """Parts of the code under test that are no promised interface: where one is gone, the case says so and is not judged."""
        gone = [n for n in names if not hasattr(owner, n)]
        if gone:
            self.label(*["gone: " + n for n in gone])
            raise Reject("no such internals: %s" % ", ".join(gone))
        found = [getattr(owner, n) for n in names]
        return found if len(names) > 1 else found[0]

    def defer(self, fn):
        self.cleanups.append(fn)


class Test:
    def __init__(self, fn, name, quick, thorough, rule, cpu, shrink_calls):
        self.fn = fn
        self.name = name
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.cpu = cpu
        self.shrink_calls = shrink_calls


class Suite:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tests = []

    def test(self, quick, thorough=None, rule="", cpu=120, shrink_calls=1500):
        def deco(fn):
            self.tests.append(Test(fn, fn.__name__, quick, thorough or quick * 8, rule, cpu, shrink_calls))
            return fn

        return deco


# ---------------------------------------------------------------------------------------------------
class Outcome:
    __slots__ = ("status", "message", "sig", "trace", "tc")

    def __init__(self, status, tc, message="", sig=None, trace=""):
        self.status = status  # ok / fail / reject / error / slow
        self.tc = tc
        self.message = message
        self.sig = sig
        self.trace = trace


_HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def classify_exception(exc):
    """'repo' when the innermost frame that belongs to us or to the project is the project's."""
    verdict = "harness"
    where = None
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            verdict, where = "repo", "%s:%s" % (os.path.relpath(f, REPO), tb.tb_frame.f_code.co_name)
        elif f.startswith(_HERE + os.sep):
            verdict, where = "harness", None
        tb = tb.tb_next
    return verdict, where


def run_case(test, prefix, rng, known_sigs):
    tc = TC(prefix, rng)
    tc.known_sigs = known_sigs

    def on_cpu(signum, frame):
        raise CpuLimit()

    old = signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu)
    try:
        test.fn(tc)
        out = Outcome("ok", tc)
    except Reject:
        out = Outcome("reject", tc)
    except Violation as v:
        out = Outcome("fail", tc, v.message, v.sig)
    except CpuLimit:
        out = Outcome("slow", tc, "no result after %d s of processor time" % test.cpu, None,
                      traceback.format_exc())
    except RecursionError:
        out = Outcome("fail", tc, "unbounded recursion", None, traceback.format_exc()[-3000:])
    except Exception as e:
        kind, where = classify_exception(e)
        text = "%s: %s" % (type(e).__name__, e)
        if kind == "repo":
            sig = "exception %s in %s" % (type(e).__name__, where)
            if sig in known_sigs:
                tc.known.append((sig, text))
                out = Outcome("ok", tc)
            else:
                out = Outcome("fail", tc, "unexpected exception on a valid input: %s (%s)" % (text, where),
                              sig, traceback.format_exc()[-3000:])
        else:
            out = Outcome("error", tc, text, None, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        for fn in reversed(tc.cleanups):
            fn()
    return out


def shrink(test, outcome, known_sigs, deadline):
    best = outcome
    calls = [0]
    seen = set()

    def attempt(choices):
        nonlocal best
        key = tuple(choices)
        if key in seen or calls[0] >= test.shrink_calls or time.time() > deadline:
            return False
        seen.add(key)
        calls[0] += 1
        out = run_case(test, list(choices), None, known_sigs)
        if out.status != "fail":
            return False
        new, cur = out.tc.choices, best.tc.choices
        if (len(new), new) < (len(cur), cur):
            best = out
            return True
        return False

    improved = True
    while improved and calls[0] < test.shrink_calls and time.time() < deadline:
        improved = False
        for k in (64, 16, 8, 4, 3, 2, 1):
            i = len(best.tc.choices) - k
            while i >= 0:
                c = best.tc.choices
                if i + k <= len(c) and attempt(c[:i] + c[i + k:]):
                    improved = True
                else:
                    # delete a chunk and decrement the choice before it (a length, typically)
                    c = best.tc.choices
                    if 0 < i <= len(c) - k and c[i - 1] > 0:
                        d = c[:i - 1] + [c[i - 1] - 1] + c[i + k:]
                        if attempt(d):
                            improved = True
                i -= max(1, k // 2) if k > 4 else 1
        for k in (8, 4, 2):
            i = 0
            while i + k <= len(best.tc.choices):
                c = best.tc.choices
                if any(c[i:i + k]) and attempt(c[:i] + [0] * k + c[i + k:]):
                    improved = True
                i += k
        i = 0
        while i < len(best.tc.choices):
            c = best.tc.choices
            if c[i] > 0:
                if attempt(c[:i] + [0] + c[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, best.tc.choices[i] if i < len(best.tc.choices) else 0
                    while lo + 1 < hi:
                        mid = (lo + hi) // 2
                        c = best.tc.choices
                        if i < len(c) and attempt(c[:i] + [mid] + c[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
            i += 1
    return best, calls[0]


def case_rng(seed, prop, test, i):
    return random.Random("%s/%s/%s/%s" % (seed, prop, test, i))


def digest(choices):
    return hashlib.blake2b(json.dumps(choices).encode(), digest_size=8).digest()


def jsonable(x, depth=0):
    if isinstance(x, (str, int, bool, type(None))):
        return x if not isinstance(x, str) or len(x) < 400 else x[:400] + "..."
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set)):
        xs = list(x)
        lim = 40 if depth < 2 else 12
        r = [jsonable(v, depth + 1) for v in xs[:lim]]
        return r + ["... %d more" % (len(xs) - lim)] if len(xs) > lim else r
    return repr(x)[:200]


def run_worker(suite, tests, counts, seed, worker, nworkers, known_sigs, deadline, shrink_seconds, progress=None):
    """Runs this worker's share of the cases; returns a JSON-able report. `progress` is a file descriptor
    that names the case being run, for the case that kills the process."""
    report = {}
    for test in tests:
        r = {"evaluations": 0, "rejected": 0, "nontrivial": 0, "hashes": [], "labels": {}, "samples": [],
             "failure": None, "errors": [], "slow": [], "known": {}, "skipped": 0, "cpu": 0.0}
        report[test.name] = r
        t0 = time.process_time()
        for i in range(worker, counts[test.name], nworkers):
            if time.time() > deadline:
                r["skipped"] += 1
                continue
            if progress is not None:
                os.pwrite(progress, ("%s %d" % (test.name, i)).ljust(80).encode(), 0)
            out = run_case(test, None, case_rng(seed, suite.prop, test.name, i), known_sigs)
            tc = out.tc
            for sig, msg in tc.known:
                k = r["known"].setdefault(sig, {"count": 0, "example": msg, "choices": tc.choices})
                k["count"] += 1
            if out.status == "reject":
                r["rejected"] += 1
                continue
            r["evaluations"] += 1
            for lab in tc.labels:
                r["labels"][lab] = r["labels"].get(lab, 0) + 1
            if tc.is_nontrivial:
                r["nontrivial"] += 1
                r["hashes"].append(digest(tc.choices).hex())
                if len(r["samples"]) < 2 and tc.notes:
                    r["samples"].append(jsonable(tc.notes))
            if out.status == "ok":
                continue
            if out.status == "error":
                r["errors"].append({"case": i, "trace": out.trace, "choices": tc.choices})
                break
            if out.status == "slow":
                # retried once with a fresh budget; still no answer = the case does not terminate
                again = run_case(test, tc.choices, None, known_sigs)
                if again.status == "slow":
                    r["slow"].append({"case": i, "trace": again.trace, "choices": tc.choices,
                                      "notes": jsonable(again.tc.notes)})
                    break
                out = again
                if out.status != "fail":
                    continue
            first = out
            best, calls = shrink(test, out, known_sigs, min(deadline, time.time() + shrink_seconds))
            final = run_case(test, best.tc.choices, None, known_sigs)
            if final.status == "fail":
                best = final
                stable = True
            else:
                stable = False
                best = first
            r["failure"] = {"case": i, "message": best.message, "sig": best.sig, "trace": best.trace,
                            "choices": best.tc.choices, "notes": jsonable(best.tc.notes),
                            "shrink_calls": calls, "reproduced": stable,
                            "original_message": first.message}
            break
        r["cpu"] = time.process_time() - t0
    return report
