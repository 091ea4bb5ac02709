"""Running a check: loading the program, recording obligations, verdict, evidence."""
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from sa import terms as T                     # noqa: E402
from sa import extract as X                   # noqa: E402
from sa.mir import Crate                      # noqa: E402
from sa.interp import Interp                  # noqa: E402
from sa.state import *                        # noqa: E402,F403
from sa.vals import *                         # noqa: E402,F403


class Anchor(Exception):
    """A construct the rule is anchored to is missing."""


class Timeout(BaseException):
    """The time of the whole run, or of one worker's item, is up."""


def alarm(seconds):
    def ring(sig, frame):
        raise Timeout()
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(0.5, seconds), 2)


def quiet():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.dir, self.digest = X.extract()
        self.crates = {}
        self.obs = []           # dicts: name, status (held/violated/undecided), detail
        self.interps = []
        self.notes = {}
        self.fns, self.stats = set(), {}
        self.t0 = time.time()
        self.limit = int(os.environ.get("VERIF_LIMIT", "600"))
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def crate(self, name="librezip"):
        if name not in self.crates:
            self.crates[name] = Crate(os.path.join(self.dir, name + ".json"))
        return self.crates[name]

    def interp(self, name="librezip"):
        T.reset()
        I = Interp(self.crate(name))
        self.interps.append(I)
        I.deadline = min(self.t0 + self.limit, time.time() + 200)
        I.on_panic = lambda I, st, what, detail: I.panics.append(PanicAt(I, st, what, detail)) if plausible(st) else None
        return I

    def fn(self, path, name="librezip"):
        f = self.crate(name).find(path)
        if f is None or f.body is None:
            raise Anchor("function %s not found in %s" % (path, name))
        return f

    def ob(self, name, status, detail="", where=None, key=None):
        """status: True held, False violated, None undecided.  A refutation by contents which the analysis itself gave up
        on (a sequence forgotten at a loop) is none."""
        if status is False and "(fr seq" in str(detail):
            status = None
        self.obs.append({"name": name, "status": {True: "held", False: "violated", None: "undecided"}[status],
                         "detail": detail, "where": where, "key": key or name})

    def gather(self):
        fns, stats = set(self.fns), dict(self.stats)
        for I in self.interps:
            fns |= I.stats["functions"]
            for k in ("blocks", "calls", "loops", "joins"):
                stats[k] = stats.get(k, 0) + I.stats[k]
        return fns, stats

    def attempt(self, name, f, *a):
        """Run an obligation-producing function; an analysis that cannot decide is recorded as such."""
        try:
            alarm(min(self.t0 + self.limit + 30 - time.time(), 230))
            return f(*a)
        except Anchor:
            raise
        except Timeout:
            quiet()
            self.ob(name, None, "out of time")
        except Exception as e:
            quiet()
            if not isinstance(e, AnalysisError):
                e = internal(e)
            ch = [x for x in getattr(e, "chain", ())]
            self.ob(name, None, "%s (in %s)" % (e, " > ".join(ch[-3:])))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
                print(chr(10).join(ch))
        finally:
            quiet()
        return None


    def pmap(self, f, items, jobs=None, chunk=1):
        """Run f(ctx, item) for every item in worker processes; obligations and statistics are merged."""
        import multiprocessing as mp
        global _job
        items = list(items)
        jobs = jobs or min(len(items), int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
        _job = (self, f)
        known = {f["key"] for f in known_findings(self.pid)}
        res = {}

        def enough(n, r):
            """Nothing more is needed once a violation is found and the analysis has become slow."""
            res[n] = r
            found = any(o["status"] == "violated" and o["key"] not in known for q in res.values() for o in q[0])
            return found and time.time() - self.t0 > EARLY
        if jobs <= 1:
            for n, i in enumerate(items):
                if enough(*_work((n, i))):
                    break
        else:
            with mp.get_context("fork").Pool(jobs, maxtasksperchild=None) as pool:
                for n, r in pool.imap_unordered(_work, list(enumerate(items)), chunksize=chunk):
                    if enough(n, r):
                        break
        for n in sorted(res):
            obs, fns, stats = res[n]
            self.obs.extend(obs)
            self.fns |= fns
            for k, v in stats.items():
                self.stats[k] = self.stats.get(k, 0) + v
        if len(res) < len(items):
            self.notes["cases_not_analysed_after_a_violation"] = len(items) - len(res)


def internal(e):
    tb = traceback.extract_tb(e.__traceback__)[-1]
    return AnalysisError("internal: %s: %s at %s:%d" % (type(e).__name__, str(e)[:200], tb.filename, tb.lineno))


_job = None
EARLY = 100             # seconds


def _work(numbered):
    number, item = numbered
    ctx, f = _job
    ctx.obs, ctx.interps, ctx.fns, ctx.stats = [], [], set(), {}
    try:
        try:
            alarm(min(ctx.t0 + ctx.limit + 30 - time.time(), 230))
            f(ctx, item)
        finally:
            quiet()
    except Timeout:
        ctx.ob("analysis of %r" % (item,), None, "out of time")
    except Anchor as e:
        ctx.ob("anchor", False, str(e))
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        if not isinstance(e, AnalysisError):
            e = internal(e)
        ctx.ob("analysis of %r" % (item,), None, "%s (in %s)" % (e, " > ".join(getattr(e, "chain", ())[-3:])))
    fns, stats = ctx.gather()
    return number, (ctx.obs, fns, stats)


class PanicAt:
    def __init__(self, I, st, what, detail):
        self.what = what
        self.detail = detail
        self.fn = None
        self.line = 0
        self.file = None
        for f, l in reversed(I.stack):
            if f.fn.local:
                self.fn, self.line, self.file = f.fn.path, l[0], f.fn.file
                break
        self.chain = [f.fn.path for f, _ in I.stack if f.fn.local]
        self.inner = I.stack[-1][0].fn.path if I.stack else None
        self.st = st

    def key(self):
        return "%s in %s" % (self.what, self.fn)

    def __repr__(self):
        return "%s in %s (%s:%s)" % (self.what, self.fn, self.file, self.line)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def finish(ctx, rule, assumptions=(), trusted=(), floor=1, level="other"):
    """Print the verdict, write the evidence file, return the exit code."""
    pid = ctx.pid
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = {f["key"]: f for f in known_findings(pid)}
    held = [o for o in ctx.obs if o["status"] == "held"]
    viol = [o for o in ctx.obs if o["status"] == "violated"]
    und = [o for o in ctx.obs if o["status"] == "undecided"]
    kf = [o for o in viol if o["key"] in known]
    viol = [o for o in viol if o["key"] not in known]
    code = 0
    for k in dict.fromkeys(o["key"] for o in kf):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for o in und[:6]:
        print("UNDECIDED %s: %s" % (o["name"], o["detail"]))
    if viol or (und and UNDECIDED_IS_ALARM(ctx)) or (len(ctx.obs) < floor and not und):
        code = 1
        rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
        reps = viol or und or [{"name": "too few obligations", "detail": "%d < %d" % (len(ctx.obs), floor)}]
        with open(rp, "w") as f:
            json.dump(reps, f, indent=1, default=str)
        for o in reps[:20]:
            print("  %s%s: %s" % ((o["where"] + ": ") if o.get("where") else "", o["name"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    fns, stats = ctx.gather()
    ev = {
        "property": pid, "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": rule,
            "obligations": len(ctx.obs), "discharged": len(held),
            "undecided": len(und), "known_findings": len(kf),
            "functions_analysed": len(fns),
            "local_functions": sorted(x for x in fns if x.startswith(("librezip", "rezippers", "<librezip"))),
            "abstract_steps": stats,
            "input_digest": ctx.digest,
            "samples": [o["name"] + (": " + o["detail"] if o["detail"] else "") for o in ctx.obs[:12]],
            "trusted_base": list(trusted),
            "checker_cmd": "python3 check.py " + pid,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(viol),
    }
    ev["coverage"].update(ctx.notes)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d held, %d violated, %d undecided, %d known (%.1fs)" % (
        pid, len(ctx.obs), len(held), len(viol), len(und), len(kf), ev["wall_s"]))
    return code


def UNDECIDED_IS_ALARM(ctx):
    return bool(os.environ.get("VERIF_STRICT"))
