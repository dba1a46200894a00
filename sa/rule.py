"""Rule registry, obligations, known findings, evidence."""
import json
import os
import re
import resource
import signal
import sys
import time
import traceback
from contextlib import contextmanager

from .engine import Engine
from .loader import AnalysisBroken, Project
from .terms import show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}          # property -> [Rule]


class TimeUp(BaseException):
    """the time of an analysis is used up: what it was about is undecided"""


@contextmanager
def limited(seconds):
    """raises TimeUp inside after so many seconds (nested: the outer limit goes on)"""
    def up(*_):
        raise TimeUp("no answer within %d s" % seconds)
    t0 = time.time()
    left, old = signal.getitimer(signal.ITIMER_REAL)[0], signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, min(seconds, left) if left else seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old if old is not None else signal.SIG_DFL)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(0.05, left - (time.time() - t0)))


class Rule:
    def __init__(self, prop, name, minimum, fn, text):
        self.prop, self.name, self.minimum, self.fn, self.text = prop, name, minimum, fn, text


def rule(prop, name, minimum=1):
    def deco(fn):
        RULES.setdefault(prop, []).append(Rule(prop, name, minimum, fn, " ".join((fn.__doc__ or "").split())))
        return fn
    return deco


class Ctx:
    """what a rule reports to, and the analyses it shares with the other rules of this run"""

    def __init__(self, proj, tier="quick"):
        self.p = proj
        self.tier = tier
        self.cache = {}
        self.obls = []
        self.rule = None
        self.functions = set()

    # ------------------------------------------------------------ outcomes
    def _add(self, outcome, key, detail, where):
        if where is not None and not isinstance(where, str):
            where = where.where() if hasattr(where, "where") else self.place(where)
        self.obls.append({"rule": self.rule.name, "key": key, "outcome": outcome, "detail": detail, "where": where or ""})

    def place(self, fn):
        return "%s:%s %s" % (fn.module.rel, getattr(fn.node, "lineno", "?"), fn.qual)

    def ok(self, key, detail="", where=None):
        self._add("ok", key, detail, where)

    def bad(self, key, detail, where=None):
        self._add("bad", key, detail, where)

    def unknown(self, key, detail, where=None):
        self._add("undecided", key, detail, where)

    def check(self, key, good, detail, where=None, note=""):
        """good: True / False / None(undecided)"""
        if good is None:
            self.unknown(key, detail, where)
        elif good:
            self.ok(key, note, where)
        else:
            self.bad(key, detail, where)
        return good

    # ------------------------------------------------------------ analyses
    def run(self, fn, cls=None, args=None, heap=None, **kw):
        """analyse fn (qualified short name or FuncInfo) as a root"""
        if isinstance(fn, str):
            fn = self.p.func(fn)
        an = Engine(self.p, **kw)
        r = an.run(fn, cls=cls, args=args, heap=heap)
        self.functions |= an.functions
        return r


class KnownFindings:
    """lines  finding: property=<id> rule=<rule> key=<construct> :: <what fails>
              fixed: property=<id> <commit> <what failed>"""

    def __init__(self, path=None):
        self.path = path or os.path.join(VERIF, "known-findings.txt")
        self.items = []
        if os.path.exists(self.path):
            for line in open(self.path):
                m = re.match(r"finding: property=(\S+) rule=(\S+) key=(.+?) :: (.*)$", line.strip())
                if m:
                    self.items.append(m.groups())

    def match(self, prop, ob):
        for p, r, k, text in self.items:
            if p == prop and r == ob["rule"] and k == ob["key"]:
                return text
        return None


def run_property(prop, tier="quick", root="/repo", strict=False, out=sys.stdout):
    from . import allrules  # noqa: F401  (registers the rules)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    broken, notes = [], []
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    try:
        proj = Project(root)
    except Exception as e:
        print("ERROR: cannot analyse %s: %s" % (root, e), file=out)
        return 2
    ctx = Ctx(proj, tier)
    counts = {}
    for r in RULES.get(prop, []):
        ctx.rule = r
        n0 = len(ctx.obls)
        try:
            with limited(max(5, min(200, 600 - (time.time() - t0)))):
                r.fn(ctx)
        except TimeUp as e:
            broken.append("%s: %s" % (r.name, e))
            ctx.unknown("analysis", str(e))
        except AnalysisBroken as e:
            broken.append("%s: anchor lost: %s" % (r.name, e))
            ctx.unknown("analysis", "anchor lost: %s" % e)
        except MemoryError:
            broken.append("%s: memory" % r.name)
            ctx.unknown("analysis", "memory limit")
        except RecursionError as e:
            broken.append("%s: %s" % (r.name, "recursion"))
            ctx.unknown("analysis", "recursion limit")
        except Exception as e:
            broken.append("%s: %s" % (r.name, traceback.format_exc(limit=6)))
            ctx.unknown("analysis", "internal error: %r" % (e,))
        got = [o for o in ctx.obls[n0:]]
        counts[r.name] = {k: sum(1 for o in got if o["outcome"] == k) for k in ("ok", "bad", "undecided")}
        counts[r.name]["rule"] = r.text
        if len(got) < r.minimum:
            broken.append("%s: %d instances found, at least %d expected" % (r.name, len(got), r.minimum))
    known = KnownFindings()
    viol, kn = [], []
    for o in ctx.obls:
        if o["outcome"] == "bad":
            text = known.match(prop, o)
            if text is not None:
                kn.append((o, text))
            else:
                viol.append(o)
    nok = sum(1 for o in ctx.obls if o["outcome"] == "ok")
    nun = sum(1 for o in ctx.obls if o["outcome"] == "undecided")
    seen = set()
    for o, text in kn:
        if (o["rule"], o["key"]) not in seen:
            seen.add((o["rule"], o["key"]))
            print("KNOWN-FINDING: property=%s %s [%s %s] %s" % (prop, text, o["rule"], o["key"], o["where"]), file=out)
    status = 0
    if viol:
        status = 1
        rp = os.path.join(evdir, "%s.violation.json" % prop)
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1)
        for o in viol:
            print("  %s %s %s: %s" % (o["rule"], o["key"], o["where"], o["detail"]), file=out)
        print("VIOLATION property=%s replay=%s" % (prop, rp), file=out)
    elif broken and nok == 0:
        status = 2
    elif strict and (broken or nun):
        status = 2
    if broken:
        for b in broken:
            print("NOTE: %s" % b, file=out)
    if strict or os.environ.get("VERIF_VERBOSE"):
        for o in ctx.obls:
            if o["outcome"] == "undecided":
                print("UNDECIDED %s %s %s: %s" % (o["rule"], o["key"], o["where"], o["detail"]), file=out)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static rules over the parsed and name-resolved source of every module of /repo/pyconform (nothing is executed). "
                           "Each rule enumerates its instances (obligations) from the current source and decides each of them; 'undecided' "
                           "instances are those whose code the abstraction cannot interpret, which never raise an alarm.",
            "modules_parsed": len(proj.modules),
            "functions_parsed": len(list(proj.all_funcs())),
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:80],
            "obligations": len(ctx.obls), "discharged": nok, "undecided": nun,
            "known_findings": len(kn),
            "rules": counts,
            "samples": [{k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in o.items()} for o in ctx.obls[:12]],
            "undecided_instances": [{k: str(v)[:300] for k, v in o.items()} for o in ctx.obls if o["outcome"] == "undecided"][:40],
            "source_digest": proj.digest(),
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + COMMON,
        "wall_s": round(time.time() - t0, 3), "violations": len(viol),
    }
    if broken:
        ev["coverage"]["notes"] = broken
    with open(os.path.join(evdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations (%.1f s)"
          % (prop, len(ctx.obls), nok, nun, len(kn), len(viol), time.time() - t0), file=out)
    return status


ASSUMPTIONS = {}
COMMON = [
    "numpy, netCDF4, cf_units, ply and asaptools behave as documented; no monkey-patching or reflection beyond what is resolved",
    "code outside /repo/pyconform does not subclass or modify the analysed classes (user modules excepted: they only add Function subclasses)",
]


def term(t, n=300):
    s = show(t, 9)
    return s if len(s) < n else s[:n] + "…"
