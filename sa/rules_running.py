"""The execution of a data flow followed for given files, options and numbers of ranks: which write nodes are run, how, and what is refused."""
from collections import OrderedDict

from .pev import Obj, Unknown, Wrong
from .rule import rule
from .rules_flow import execution
from .rules_graph import Missed
from .rules_mpi import attempt
from .rules_phys import SELF
from .rules_writing import Writing
from .terms import mk

SIZES = OrderedDict([("b.nc", 7), ("a.nc", 40), ("d/c.nc", 3), ("e.nc", 3)])
O2I = {"time": "t", "lat": "y", "lon": "x"}
OPTIONS = ("chunks", "serial", "history", "scomm", "deflate", "debug")


def comm(rank, size, log):
    def part(data=None, func=None, involved=False, tag=None):
        if data is None:
            raise Wrong("nothing is handed to the partition")
        names = [x[0] for x in sorted(data, key=lambda x: (-x[1], x[0]))]
        if size == 1:
            return names
        if involved:
            return names[rank::size]
        return [] if rank == 0 else names[rank - 1::size - 1]
    return Obj("SimpleComm", label="comm", is_manager=lambda: rank == 0, get_rank=lambda: rank, get_size=lambda: size, sync=lambda: log.append(("sync",)), partition=part)


def executed(ctx, rank=0, size=1, sumlike=(), given=False, sizes=SIZES, **options):
    """(what happens, the chunk sizes given)"""
    r, f = execution(ctx)
    r.an.state = r.state
    log = []
    nodes = {}
    for n in sizes:
        def write(chunks=None, deflate=None, n=n, **k):
            log.append(("write", n, dict(chunks or {}), deflate, list(chunks or {})))
        nodes[n] = Obj("WriteNode", label=n, enable_history=lambda n=n: log.append(("on", n)), disable_history=lambda n=n: log.append(("off", n)), execute=write, __bases__=("FlowNode",))
    i2o = {v: k for k, v in O2I.items()}
    me = Obj("DataFlow", label="flow", _o2imap=dict(O2I), _i2omap=i2o, dimension_map=i2o, _sumlike_dimensions=set(sumlike), _filesizes=OrderedDict(sizes), _writenodes=nodes)
    the = comm(rank, size, log)

    def make(serial=False):
        if ("comm", bool(serial)) not in log:
            log.append(("comm", bool(serial)))
        return the
    opts = dict(chunks={}, serial=False, history=False, scomm=None, deflate=None, debug=False)
    opts.update(options)
    if given:
        opts["scomm"] = the
    env = {SELF: me}
    env.update({mk("arg", k): v for k, v in opts.items()})
    g = Writing(r.an, env, calls={"create_comm": make, "print": lambda *a, **k: None, "WeightBalanced": lambda *a: Obj("weights", label="weights"), "Duplicate": lambda *a: Obj("all", label="all")})
    g.perform(r)
    return log


def short(c):
    return ",".join("%s=%s" % x for x in c.items()) if isinstance(c, dict) else repr(c)


@rule("C19", "followed", 12)
def followed(ctx):
    """For given files and numbers of ranks, what each rank does is followed: together the ranks write each file exactly once, in the way asked for (chunk sizes in the order given, deflate level, history
    set before the file is written), and all meet in the same steps; a communicator that is given is used, otherwise one is made as the serial option says."""
    r, f = execution(ctx)
    where = ctx.place(f)
    for size in (1, 2, 3, 7):
        for chunks, deflate, history in (({}, None, False), (OrderedDict([("time", 5), ("lat", 2)]), 0, True), (OrderedDict([("lon", 1), ("time", 12)]), 4, False)):
            key = "%d ranks %s %s %s" % (size, short(chunks) or "whole", deflate, "history" if history else "plain")

            def run():
                logs = [executed(ctx, k, size, chunks=chunks, deflate=deflate, history=history) for k in range(size)]
                problems = []
                for k, log in enumerate(logs):
                    last = {}
                    for e in log:
                        if e[0] in ("on", "off"):
                            last[e[1]] = e[0]
                        elif e[0] == "write":
                            if e[4] != list(chunks) or e[2] != dict(chunks):
                                problems.append("%s is written in chunks of %s" % (e[1], short(e[2])))
                            if e[3] != deflate or isinstance(e[3], bool):
                                problems.append("%s is written with deflate level %r" % (e[1], e[3]))
                            if last.get(e[1], "off") != ("on" if history else "off"):
                                problems.append("the history of %s is %s when it is written" % (e[1], last.get(e[1])))
                meets = [[e[0] for e in log if e[0] == "sync"] for log in logs]
                if any(m != meets[0] for m in meets):
                    problems.append("the ranks meet in different steps")
                wrote = sorted(e[1] for log in logs for e in log if e[0] == "write")
                if wrote != sorted(SIZES):
                    problems.append("written: %s" % ", ".join(wrote))
                ctx.check(key, not problems, "; ".join(problems)[:300], where)
            attempt(ctx, key, run, where)
    for serial in (True, False, 1, 0):
        def run():
            log = executed(ctx, serial=serial)
            made = [e[1] for e in log if e[0] == "comm"]
            ctx.check("serial %r" % serial, made == [bool(serial)], "the communicator is made with serial=%s" % made, where)
        attempt(ctx, "serial %r" % serial, run, where)

    for serial in (False, True):
        def run():
            log = executed(ctx, 1, 3, given=True, serial=serial)
            ctx.check("given communicator serial %s" % serial, not [e for e in log if e[0] == "comm"] and len([e for e in log if e[0] == "write"]) == len(list(SIZES)[1::3]), "a communicator that is given is not used: %s" % [e[:2] for e in log][:5], where)
        attempt(ctx, "given communicator", run, where)

    def run():
        log = executed(ctx, 0, 2, sizes={})
        ctx.check("no files", not [e for e in log if e[0] == "write"], "written without files", where)
    attempt(ctx, "no files", run, where)


REFUSED = [("a list", ["time", 3]), ("a pair", ("time", 3)), ("text", "time"), ("an unknown dimension", {"depth": 2}), ("an input dimension", {"t": 2}), ("a known and an unknown dimension", OrderedDict([("time", 2), ("depth", 2)])),
           ("an unknown and a known dimension", OrderedDict([("depth", 2), ("time", 2)])), ("size 0", {"time": 0}), ("a negative size", {"lat": -3}), ("a broken size", {"lat": 2.0}), ("a size in text", {"lat": "2"}),
           ("a second wrong size", OrderedDict([("lon", 2), ("lat", 0)]))]


@rule("C09", "refused-for-given-chunks", 18)
def refused(ctx):
    """For given chunk sizes execution is followed: those that are no dictionary, name an unknown dimension or no positive integer are refused before anything is done, also in debug mode; so are those along
    a dimension that is summed over, which debug mode leaves out instead; the sizes given are as before."""
    r, f = execution(ctx)
    where = ctx.place(f)
    for what, chunks in REFUSED:
        for debug in (False, True):
            key = what + (" in debug mode" if debug else "")

            def run():
                try:
                    log = executed(ctx, chunks=chunks, debug=debug, sumlike=["lon"] if debug and "lon" not in chunks else [])
                except (Wrong, Missed):
                    ctx.check(key, True, "refused", where)
                else:
                    ctx.bad(key, "chunks of %s are accepted" % short(chunks), where)
            attempt(ctx, key, run, where)
    for sumlike in (["time"], ["lat", "time"], ["lon", "lat", "time"], ["lon"], []):
        for chunks in (OrderedDict([("lat", 3), ("time", 2)]), OrderedDict([("time", 2)]), OrderedDict([("lon", 1), ("lat", 3), ("time", 2)])):
            clash = [d for d in chunks if d in sumlike]
            key = "%s summed over %s" % (short(chunks), ",".join(sumlike) or "nothing")

            def run():
                before = list(chunks.items())
                try:
                    log = executed(ctx, chunks=chunks, sumlike=sumlike)
                except (Wrong, Missed) as x:
                    ctx.check(key, bool(clash), "refused: %s" % x, where)
                else:
                    ctx.check(key, not clash, "chunks are made along %s" % ", ".join(clash), where)
                log = executed(ctx, chunks=chunks, sumlike=sumlike, debug=True)
                used = [e[2] for e in log if e[0] == "write"]
                left = {d: n for d, n in chunks.items() if d not in clash}
                ctx.check(key + " in debug mode", all(u == left for u in used) and len(used) == len(SIZES), "the chunks used are %s" % [short(u) for u in used][:2], where)
                ctx.check(key + " kept", list(chunks.items()) == before, "the chunk sizes given become %s" % short(chunks), where)
            attempt(ctx, key, run, where)
