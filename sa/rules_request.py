"""C27: the specifications that are generated from a data request"""
import re
from copy import copy

from .pev import Obj, Unknown, Wrong
from .q import exc_name, name_of
from .rule import rule
from .rules_dates import Times, returned
from .rules_mpi import attempt
from .terms import mk, show

FILL = "__FILL__"
OPTIONS = ("netcdf_type", "compression", "shuffle")


class Request(Times):
    """an exception caught on the way is one that a call of the protected part raises here"""

    def ev(self, t, env=None):
        e = self.env if env is None else env
        if t not in e and t.op == "raised":
            for c in self.an.events:
                if c.kind == "call" and c.res is not None and any(x[0] == "try" and x[1] == t.args[0] for x in c.ctx or ()):
                    for x in self.happens(c.loops or (), c.guards, e, c.seq):
                        try:
                            self.ev(c.res, x)
                        except Wrong as w:
                            kind = str(w).split(":")[0] if str(w).split(":")[0] in ("AttributeError", "KeyError", "IndexError") else "ValueError"
                            return not t.args[1:] or kind in show(mk("tuple", *t.args[1:]), 6) or "Exception" in show(mk("tuple", *t.args[1:]), 6)
            return False
        return super().ev(t, env)

    def stores(self, root):
        """(what, key, value) done to a dictionary, in the order of the program"""
        for e in sorted(self.an.events, key=lambda e: e.seq):
            call = e.kind == "call" and e.f is not None and e.f.op == "attr" and e.f.args[1] in ("pop", "setdefault", "update", "clear", "popitem")
            if not (e.kind in ("setitem", "delitem") and self.same(e.obj, root) or call and self.same(e.f.args[0], root)):
                continue
            for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                if e.kind == "setitem":
                    k = self.ev(e.name, x) if hasattr(e.name, "op") else e.name
                    try:
                        yield "set", k, self.ev(e.val, x), e
                    except Wrong as w:
                        if not any(c[0] == "try" for c in e.ctx or ()):
                            raise Wrong("%s for %s" % (w, k))
                elif e.kind == "delitem" or e.f.args[1] == "pop":
                    yield "pop", self.ev(e.args[0] if e.kind == "call" else e.name, x), None, e
                elif e.f.args[1] == "update" and len(e.args) == 1:
                    for k, v in self.ev(e.args[0], x).items():
                        yield "set", k, v, e
                elif e.f.args[1] == "setdefault" and len(e.args) == 2:
                    yield "default", self.ev(e.args[0], x), self.ev(e.args[1], x), e
                else:
                    raise Unknown(show(e.f, 3))

    def same(self, t, root):
        return t is root

    def after_all(self, root):
        """the dictionary at the end"""
        d = dict(self.env[root])
        for what, k, v, e in self.stores(root):
            if what == "set":
                d[k] = v
            elif what == "default":
                d.setdefault(k, v)
            else:
                d.pop(k, None)
        return d


def run(ctx, name, opaque=()):
    key = ("request", name, tuple(opaque))
    if key not in ctx.cache:
        fn = ctx.p.func("cli.iconform." + name)
        ctx.cache[key] = (fn, ctx.run(fn, opaque=set(opaque)) if opaque else ctx.run(fn))
    return ctx.cache[key]


def library():
    return {"print": lambda *a, **k: None, "uuid4": lambda: Obj("UUID", label="uuid", __str__="UUID"), "uuid1": lambda: Obj("UUID", label="uuid", __str__="UUID")}


def world(r, *values):
    names = [a.arg for a in r.fn.node.args.args]
    if len(names) < len(values):
        raise Unknown("parameters of %s" % r.fn.name)
    return Request(r.an, {mk("arg", n): v for n, v in zip(names, values)}, calls=library())


# ---------------------------------------------------------------------- one variable
V = {"mipTable": "Amon", "frequency": "mon", "variable_id": "tas", "units": "K", "coordinates": "lon|lat|time", "positive": "", "type": "float", "realm": "atmos",
     "long_name": "T", "cell_methods": "", "valid_min": 0}
F = {"mip_era": "CMIP6", "activity_id": "CMIP", "institution_id": "NCAR", "source_id": "CESM2", "grid_label": "gn", "title": "x", "references": FILL, "netcdf_type": "NETCDF4",
     "compression": "2", "shuffle": "on", "realization_index": 1, "initialization_index": 2, "physics_index": 3, "forcing_index": 4, "nominal": 100}
DATES = {"mon": "_{%Y%m-%Y%m}", "day": "_{%Y%m%d-%Y%m%d}", "fx": "", "6hr": "_{%Y%m%d%H%M-%Y%m%d%H%M}", "monC": "_{%Y%m-%Y%m}-clim", "other": ""}
TYPES = {"char": "char", "byte": "byte", "short": "short", "int": "int", "float": "float", "real": "real", "double": "double", "character": "char", "integer": "int", "": "real",
         None: "real", "None": "real"}
FORMATS = ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA")


def without(d, *ks):
    return {k: v for k, v in d.items() if k not in ks}


def variable_cases():
    """{case: (v, filled attributes, input glob, experiment)}"""
    out = {"all": (V, F, "*.h0.*", "hist"), "no glob": (V, F, "", "hist"), "glob None": (V, F, None, "hist"), "all experiments": (V, F, "", "--ALL--"), "no attributes": (V, {}, "", "hist"),
           "activity to fill": (V, dict(F, activity_id=FILL), "", "hist")}
    for k in F:
        out["without %s" % k] = (V, without(F, k), "", "hist")
    for c in (0, "0", 9):
        out["compression %r" % c] = (V, dict(F, compression=c), "", "hist")
    for k in ("positive", "long_name", "units", "type", "realm"):
        out["variable without %s" % k] = (without(V, k), F, "", "hist")
    for t in TYPES:
        out["type %r" % (t,)] = (dict(V, type=t), F, "", "hist")
    for f in FORMATS:
        out["format %s" % f] = (V, dict(F, netcdf_type=f), "", "hist")
        out["format %s only" % f] = (V, {"netcdf_type": f}, "", "hist")
    for f in DATES:
        out["frequency %s" % f] = (dict(V, frequency=f), F, "", "hist")
    for q in ("", "2.0", "1 2 3"):
        out["requested %r" % q] = (dict(V, requested=q), F, "", "hist")
    for c in ("", "time", "lon|lat|plev|time"):
        out["coordinates %r" % c] = (dict(V, coordinates=c), F, "", "hist")
    out["no coordinates"] = (without(V, "coordinates"), F, "", "hist")
    return out


def expected(ctx, v, f, ig, exp):
    ver = ctx.p.modules[[n for n in ctx.p.modules if n.endswith("cli.iconform")][0]]
    version = [s.value.value for s in ver.tree.body if getattr(s, "targets", None) and getattr(s.targets[0], "id", "") == "version"]
    idx = [f.get(k) for k in ("realization_index", "initialization_index", "physics_index", "forcing_index")]
    ripf = "r%si%sp%sf%s" % tuple(idx) if None not in idx else "None"
    g = lambda k: f.get(k, "")
    act = "None" if g("activity_id") == FILL else g("activity_id")
    exp = "None" if exp == "--ALL--" else exp
    path = ["/out", g("mip_era"), act, g("institution_id"), g("source_id"), exp, ripf, v["mipTable"], v["variable_id"], g("grid_label"), (version or ["?"])[0]]
    name = "_".join([v["variable_id"], v["mipTable"], g("source_id"), exp, ripf, g("grid_label")]) + DATES[v["frequency"]] + ".nc"
    dims = v.get("coordinates", "").split("|")[::-1] if v.get("coordinates") else []
    atts = {k: x for k, x in v.items() if x != ""}
    atts["comment"] = "DEF"
    if dims:
        atts["coordinates"] = " ".join(dims)
    fmt = f.get("netcdf_type", "NETCDF4_CLASSIC")
    fatts = {k: "" if x == FILL else x for k, x in f.items() if k not in OPTIONS}
    fatts["variant_label"] = ripf
    return {"filename": "/".join(path + [name]), "format": fmt, "dimensions": dims, "attributes": atts, "file attributes": fatts, "definition": v.get("requested") or "DEF",
            "datatype": TYPES[v.get("type", "")], "input_glob": ig or None, "deflate": int(f["compression"]) if "NETCDF4" in fmt and "compression" in f else None}


def filled(r):
    """what the global attributes of the variable are after filling them in: the result of the call, or the dictionary that was given to it"""
    out = [e for e in r.events if e.kind == "call" and (name_of(e.f) or show(e.f, 2)).split(".")[-1].rstrip(">") == "fill_missing_glob_attributes"]
    if len(out) != 1 or out[0].res is None:
        raise Unknown("where attributes are filled in")
    return out[0]


@rule("C27", "variables", 9 * 40)
def variables(ctx):
    """For each variable of a request, whatever attributes are left out: its definition (or the requested values), type, dimensions in reversed order, non-empty
    attributes, and a file with the composed name, the format, the compression and the global attributes (without options, nothing left to be filled)."""
    fn, r = run(ctx, "defineVar", ("fill_missing_glob_attributes",))
    place = ctx.place(fn)
    for case, (v, f, ig, exp) in variable_cases().items():
        want = expected(ctx, v, f, ig, exp)

        def one():
            e = filled(r)
            w = world(r, dict(v), v["variable_id"], {"title": "given"}, {"t": 1}, "DEF", ig, exp, "/out")
            w.env[e.res] = dict(f)
            k, d = returned(r, w)
            for x in r.events:
                if x.kind == "exit" and list(w.happens(x.loops or (), x.guards, w.env, x.seq)):
                    raise Wrong("exit")
            if k != "value" or not isinstance(d, dict) or not isinstance(d.get("file"), dict):
                return ctx.bad(case, "the result is %s" % (d,), place)
            got = {"filename": d["file"].get("filename"), "format": d["file"].get("format"), "dimensions": d.get("dimensions"), "attributes": d.get("attributes"),
                   "file attributes": w.after_all(e.res), "definition": d.get("definition"), "datatype": d.get("datatype"), "input_glob": d.get("input_glob"),
                   "deflate": d["file"].get("deflate")}
            if d["file"].get("attributes") != f:
                return ctx.bad(case, "the attributes of the file are %s" % (d["file"].get("attributes"),), place)
            for n in want:
                x = got[n]
                diff = x
                if isinstance(x, dict) and isinstance(want[n], dict):
                    diff = sorted((k for k in set(x) | set(want[n]) if x.get(k) != want[n].get(k) or (k in x) != (k in want[n])), key=str)
                ctx.check("%s %s" % (case, n), x == want[n] and type(x) is type(want[n]), "%s is %s%s" % (n, "different in " if diff is not x else "", diff if diff is not x else repr(x)), place)
        attempt(ctx, case, one, place)

    def wrong_format():
        e = filled(r)
        w = world(r, dict(V), "tas", {}, {}, "DEF", "", "hist", "/out")
        w.env[e.res] = dict(F, netcdf_type="NETCDF5")
        left = [x for x in r.events if x.kind == "exit" and list(w.happens(x.loops or (), x.guards, w.env, x.seq)) and w.ev(x.val) != 0]
        raised = [x for x in r.events if x.kind == "raise" and list(w.happens(x.loops or (), x.guards, w.env, x.seq))]
        ctx.check("unknown format", bool(left or raised), "a format that does not exist is accepted", place)
    attempt(ctx, "unknown format", wrong_format, place)


@rule("C27", "given", 8)
def given(ctx):
    """The attributes that are filled in for a variable are a copy of those of the attribute file (so that nothing gets to another variable) without the grids, which are known by model."""
    fn, r = run(ctx, "defineVar", ("fill_missing_glob_attributes",))
    place = ctx.place(fn)
    for key, grids in (("no grids", None), ("grids", "atmos,land:native 1x1; ocean , seaIce:gx1v7")):
        def one():
            e = filled(r)
            attr = {"title": "x", "realm": FILL}
            if grids:
                attr["grids"] = grids
            w = world(r, dict(V), "tas", attr, {"t": 1}, "DEF", "", "hist", "/out")
            w.env[e.res] = dict(F)
            a = e.args
            if len(a) != 4:
                raise Unknown("arguments")
            owner = a[0]
            ctx.check(key + " copy", owner.op in ("alloc", "call", "new") and owner is not mk("arg", fn.node.args.args[2].arg), "the given attributes themselves are filled in", place)
            ctx.check(key + " attributes", w.ev(a[0]) == {"title": "x", "realm": FILL}, "filled in are %s" % (w.ev(a[0]),), place)
            ctx.check(key + " others", w.ev(a[1]) == {"t": 1} and w.ev(a[2]) == V, "the table and the variable are %s" % ([w.ev(a[1]), w.ev(a[2])],), place)
            w.env[owner] = dict(attr)
            g = w.ev(a[3])
            want = {"atmos": "native 1x1", "land": "native 1x1", "ocean": "gx1v7", "seaIce": "gx1v7"} if grids else {}
            ctx.check(key + " grids", {k: str(x).strip() for k, x in g.items()} == want, "the grids are %s" % (g,), place)
        attempt(ctx, key, one, place)


# -------------------------------------------------------------------- what is filled in
TABLE = {"activity_id": "CMIP", "data_specs_version": "01.00", "experiment": "Historical", "table_id": "T"}
FILLED = {"activity_id": "CMIP", "creation_date": "", "data_specs_version": "01.00", "experiment": "Historical", "frequency": "mon", "realm": "atmos", "table_id": "Amon",
          "variable_id": "tas", "tracking_id": re.compile(r"hdl:21\.14100/.+")}
GIVEN = {"title": "x", "number": 5, "institution_id": "NCAR", "source_id": "CESM2", "mip_era": "CMIP6"}
RELATED = {"activity_id": ("parent_activity_id",), "experiment": ("experiment_id", "parent_experiment_id", "sub_experiment"), "variable_id": ("variable_id_other",), "frequency": ("frequency_of",),
           "realm": ("realms",), "table_id": ("mip_table_id",)}
BRANCH = {"branch_time_in_child": "365D", "branch_time_in_parent": "30.5D0", "parent_activity_id": "CMIP", "parent_mip_era": "p", "parent_source_id": "p", "parent_time_units": "p",
          "parent_experiment_id": "piControl"}


@rule("C27", "filling", 100)
def filling(ctx):
    """What the attribute file leaves to be filled in is taken from the table or from the variable, and nothing else changes; whatever entries it does not have."""
    fn, r = run(ctx, "fill_missing_glob_attributes")
    place = ctx.place(fn)
    root = mk("arg", fn.node.args.args[0].arg)

    def result(attr, v=V, grids=None, table=TABLE):
        w = world(r, dict(attr), dict(table), dict(v), dict(grids or {}))
        d = w.after_all(root)
        k, x = returned(r, w)
        if k != "value" or x != attr:
            raise Unknown("returned is %r" % (x,))
        return d

    def same(x, y):
        return bool(y.match(x)) if hasattr(y, "match") and isinstance(x, str) else x == y

    def differing(d, want):
        return sorted(k for k in set(d) | set(want) if (k in d) != (k in want) or not same(d.get(k), want[k]))
    for k, x in FILLED.items():
        def one():
            attr = dict(GIVEN, **{k: FILL})
            for n in RELATED.get(k, ()):
                attr[n] = "own"
            d = result(attr)
            ctx.check("fill %s" % k, same(d.get(k), x), "%s becomes %r" % (k, d.get(k)), place)
            ctx.check("fill %s only" % k, not differing(d, dict(attr, **{k: d.get(k)})), "filling in %s changes %s" % (k, differing(d, dict(attr, **{k: d.get(k)}))), place)

        def given_value():
            attr = dict(GIVEN, **{k: "mine"})
            for n in RELATED.get(k, ()):
                attr[n] = FILL
            d = result(attr)
            ctx.check("own %s" % k, d.get(k) == "mine", "%s given as 'mine' becomes %r" % (k, d.get(k)), place)
        attempt(ctx, "fill %s" % k, one, place)
        attempt(ctx, "own %s" % k, given_value, place)
    for cm, want in (("area: areacella", "areacella"), ("area: areacello volume: volcello", "areacello volcello"), ("", None), (None, None), ("area: areacellr", "areacellr"),
                     ("area: areacellg", "areacellg"), ("volume: volcello", "volcello")):
        def ext():
            v = without(V) if cm is None else dict(V, cell_measures=cm)
            d = result(dict(GIVEN, external_variables=FILL), v)
            ctx.check("external %s" % cm, not differing(d, dict(GIVEN, **({"external_variables": want} if want else {}))), "external variables are %r" % (d.get("external_variables"),), place)
        attempt(ctx, "external %s" % cm, ext, place)
    for method in (None, "standard", "no parent"):
        full = dict(GIVEN, **BRANCH)
        if method:
            full["branch_method"] = method
        subsets = [full, GIVEN if not method else dict(GIVEN, branch_method=method)] + [without(full, k) for k in full] + [dict({k: full[k]}, **({"branch_method": method} if method else {})) for k in full]
        subsets += [dict(full, **{k: FILL}) for k in BRANCH] + [dict(full, **{k: ""}) for k in BRANCH] + [dict(full, branch_time_in_child=3, branch_time_in_parent=0)]
        for n, attr in enumerate(subsets):
            key = "branch %s with %d entries, case %d" % (method, len(attr), n)

            def branch():
                d = result(attr)
                other = [k for k in differing(d, attr) if k not in ("branch_time_in_child", "branch_time_in_parent", "parent_mip_era", "parent_source_id", "parent_time_units")]
                ctx.check(key, not other, "changed are %s" % other, place)
            attempt(ctx, key, branch, place)
    for label, idx in (("r1i2p3f4", (1, 2, 3, 4)), ("r10i1p1f22", (10, 1, 1, 22)), ("r1i20p33f4", (1, 20, 33, 4)), (FILL, None), ("", None)):
        def variant():
            d = result(dict(GIVEN, variant_label=label))
            got = tuple(d.get(k) for k in ("realization_index", "initialization_index", "physics_index", "forcing_index"))
            ctx.check("variant %s" % label, got == (idx or (None,) * 4), "the indices are %s" % (got,), place)
        attempt(ctx, "variant %s" % label, variant, place)
    parts = {"mip_era": "CMIP6", "institution_id": "NCAR", "source_id": "CESM2", "experiment_id": "hist", "sub_experiment_id": "none", "variant_label": "r1i1p1f1"}
    for left in [None] + list(parts):
        def url():
            attr = dict(without(parts, left), further_info_url=FILL, title="x")
            d = result(attr)
            want = FILL if left not in (None, "sub_experiment_id") else "https://furtherinfo.es-doc.org/" + ".".join(attr.get(k, "") for k in parts)
            ctx.check("url without %s" % left, d.get("further_info_url") == want, "the link is %r" % d.get("further_info_url"), place)
        attempt(ctx, "url without %s" % left, url, place)
    for realm, want in (("atmos", "g1"), ("ocean seaIce", "g2"), ("land", "mine")):
        def grid():
            d = result({"grid": "mine", "realm": realm}, grids={"atmos": "g1", "ocean": "g2"})
            ctx.check("grid %s" % realm, d.get("grid") == want, "the grid is %r" % d.get("grid"), place)
        attempt(ctx, "grid %s" % realm, grid, place)


# ------------------------------------------------------------------------------ axes
@rule("C27", "axes", 60)
def axes(ctx):
    """An axis has its non-empty attributes (time with units that can be used), its type if it has one, the requested values if there are any, and itself as dimension."""
    fn, r = run(ctx, "defineAxes")
    place = ctx.place(fn)
    base = {"units": "m", "axis": "Z", "positive": "", "type": "double", "id": "plev"}
    cases = {"plain": (base, "plev"), "time": (dict(base, units="days since ?"), "time"), "time1": (base, "time1"), "empty": ({}, "alevel"), "time empty": ({}, "time2")}
    for t in TYPES:
        cases["type %r" % (t,)] = (dict(base, type=t), "plev")
    for q in ("", "1 2.5", "a b", "10.", [1, 2], ["1", "2"]):
        cases["requested %r" % (q,)] = (dict(base, requested=q), "plev")
    for k in base:
        cases["without %s" % k] = (without(base, k), "plev")
    for case, (v, name) in cases.items():
        def one():
            w = world(r, dict(v), name)
            k, d = returned(r, w)
            if k != "value" or not isinstance(d, dict):
                return ctx.bad(case, "the result is %s" % (d,), place)
            atts = {k: x for k, x in v.items() if x != ""}
            if "time" in name:
                atts["units"] = "days since 0001-01-01 00:00:00"
            ctx.check(case + " attributes", d.get("attributes") == atts, "its attributes are %s" % (d.get("attributes"),), place)
            t = v.get("type")
            ctx.check(case + " type", d.get("datatype") == (TYPES[t] if t not in (None, "", "None") else None), "its type is %r" % d.get("datatype"), place)
            ctx.check(case + " dimensions", d.get("dimensions") == [name], "its dimensions are %s" % (d.get("dimensions"),), place)
            q = v.get("requested", "")
            if isinstance(q, str):
                try:
                    want = [float(x) for x in q.split()] or None
                except ValueError:
                    want = q.split()
                ctx.check(case + " values", d.get("definition") == want, "its values are %s" % (d.get("definition"),), place)
            else:
                ctx.check(case + " values", d.get("definition") == q, "its values are %s" % (d.get("definition"),), place)
        attempt(ctx, case, one, place)


# -------------------------------------------------------------------------- assembly
def request():
    """two tables of a request: variables with and without definitions, with shared, generic and unnamed dimensions"""
    d = lambda t, i, r, dims: {"mipTable": t, "variable_id": i, "realm": r, "dims": dims}
    first = {"variables": {"tas": d("Amon", "tas", "atmos", ["time", "lat"]), "ta": d("Amon", "ta", "atmos", ["time", "alevel", "lat"]), "nodef": d("Amon", "nodef", "atmos", ["lat"]),
                           "sfc": d("Amon", "sfcid", "atmos land", []), "gpp": d("Amon", "gpp", "land", ["", "None", "landUse", "lat"])},
             "axes": {"time": {"id": "time"}, "lat": {"id": "lat"}, "landUse": {"id": "landUse"}}, "table_info": {"generic_levels": "alevel lat", "activity_id": "CMIP"}}
    second = {"variables": {"tos": d("Omon", "tos", "ocean", ["time", "depth"]), "zz": d("Zday", "zz", "ocean", ["time"]), "tas": d("Aday", "tas", "atmos", ["time"])},
              "axes": {"time": {"id": "time 2"}, "depth": {"id": "depth"}}, "table_info": {}}
    defs = {"Amon": {"tas": "T", "ta": "T3", "sfc": "S", "gpp": "G"}, "Omon": {"tos": "SST"}, "Aday": {"tas": "Td"}, "Coords_atmos": {"lat": "atmlat", "time": "atmtime"}, "Coords_land": {"landUse": "x"}}
    globs = {t: {v: "*.%s.%s" % (t, v) for v in ds} for t, ds in defs.items()}
    return {"first": first, "second": second}, defs, globs


class Assembly(Request):
    cells = False

    def together(self, guards, env):
        return super().together([g for g in guards if not self.presence(g)], env)

    def holds(self, g, env=None):
        return True if self.presence(g) else super().holds(g, env)

    def presence(self, g):
        """a test whether something is in one of the specifications already"""
        if g.op == "not":
            return self.presence(g.args[0])
        return g.op == "cmp" and g.args[0] in ("in", "not in") and self.specs(g.args[2])

    def specs(self, t):
        while t.op in ("sub", "call", "attr", "setdefault"):
            if t.op == "call" and not (t.args[0].op == "attr" and t.args[0].args[1] in ("keys", "get")):
                return False
            t = t.args[0]
        return t.op == "alloc" and t in self.tables


@rule("C27", "assembly", 36)
def assembly(ctx):
    """Every variable of the request with a definition is put into the specification of its activity, table and realm under its own name, made from its own definition, together with
    each of its dimensions (made from the axis of that table, with the definition that is given for it); every other variable is reported."""
    fn, r = run(ctx, "create_output", ("defineVar", "defineAxes"))
    place = ctx.place(fn)
    req, defs, globs = request()
    made, axes_made = [], []

    def var(d, v, attributes, table_info, definition, ig, experiment, out_dir, *rest):
        made.append((v, d, attributes, table_info, definition, ig, experiment, out_dir))
        return {"file": {"attributes": {"activity_id": "ACT", "variable_id": "set by the user"}}, "attributes": {"mipTable": d["mipTable"], "variable_id": d["variable_id"]},
                "dimensions": d["dims"], "definition": definition, "name": v}

    def axis(a, name, *rest):
        return {"axis": a, "name": name, "attributes": {}}

    def tables(ev):
        """the collections into which the variables go: those that are written out"""
        out = set()
        for e in ev:
            if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "dump" and e.args:
                t = e.args[0]
                while t.op == "sub":
                    t = t.args[0]
                if t.op == "alloc":
                    out.add(t)
        return out

    def one():
        w = Assembly(r.an, {mk("arg", n): v for n, v in zip([a.arg for a in fn.node.args.args], [req, defs, globs, {"title": "x"}, "/spec", None, "EXP", "/out", False])},
                     calls=dict(library(), defineVar=var, defineAxes=axis, exists=lambda p: True))
        w.tables = tables(r.events)
        if not w.tables:
            raise Unknown("what is written out")
        # generic levels: axes without a description, unless they have one
        before = {t: {k: dict(a) for k, a in x["axes"].items()} for t, x in req.items()}
        for e in sorted(r.events, key=lambda e: e.seq):
            if e.kind == "call" and e.f.op == "attr" and e.f.args[1] in ("setdefault", "update") or e.kind == "setitem":
                o = e.f.args[0] if e.kind == "call" else e.obj
                if o.op == "alloc" or w.specs(o):
                    continue
                try:
                    for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                        target = w.ev(o, x)
                        if any(target is y["axes"] for y in req.values()):
                            if e.kind == "setitem":
                                target[w.ev(e.name, x)] = w.ev(e.val, x)
                            elif e.f.args[1] == "setdefault":
                                target.setdefault(w.ev(e.args[0], x), w.ev(e.args[1], x))
                except (Unknown, Wrong):
                    continue
        for t in req:
            ctx.check("axes of %s" % t, all(req[t]["axes"].get(k) == a for k, a in before[t].items()), "axes described by the table are lost", place)
        del made[:]
        got = set()
        for e in r.events:
            if e.kind == "call" and (name_of(e.f) or show(e.f, 2)).split(".")[-1].rstrip(">") == "defineVar":
                for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                    del made[:]
                    var(*[w.ev(a, x) for a in e.args])
                    v, d, attributes, info, definition, ig, exp, out_dir = made[0]
                    t = [n for n in req if req[n]["variables"].get(v) is d]
                    ok = t and attributes == {"title": "x"} and info is req[t[0]]["table_info"] and definition == defs[d["mipTable"]][v] and ig == globs[d["mipTable"]][v] and \
                        exp == "EXP" and out_dir == "/out"
                    ctx.check("%s %s made" % (t[0] if t else "", v), bool(ok), "made from %s" % (made[0],), place)
                    got.add((t[0] if t else None, v))
        wanted = {(t, v) for t in req for v, d in req[t]["variables"].items() if v in defs.get(d["mipTable"], {})}
        ctx.check("which are made", got == wanted, "made are %s" % sorted(got ^ wanted, key=str), place)
        stored, dims, coords = [], [], []
        for e in r.events:
            if e.kind != "setitem":
                continue
            if e.obj.op == "setdefault" and w.specs(e.obj.args[0]):
                # the entry that is there or a new one
                e, of = copy(e), e.obj
                e.obj = mk("sub", of.args[0], of.args[1])
            inspec = e.obj.op == "sub" and w.specs(e.obj)
            axisdef = not inspec and (e.obj.op == "sub" and w.specs(e.obj.args[0]) or e.obj.op == "call" and "defineAxes" in show(e.obj.args[0], 3)) or inspec and w.specs(e.obj.args[0]) and e.obj.args[0].op == "sub"
            if e.obj.op == "alloc" or not (inspec or axisdef):
                continue
            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                if axisdef:
                    coords.append((w.ev(e.obj, x) if not w.specs(e.obj) else {"name": w.ev(e.obj.args[1], x), "axis": None}, w.ev(e.name, x), w.ev(e.val, x)))
                    continue
                key, name, val = w.ev(e.obj.args[1], x), w.ev(e.name, x), w.ev(e.val, x)
                if not isinstance(val, dict):
                    raise Unknown("stored is %r" % (val,))
                (dims if "axis" in val else stored).append((key, name, val))
        for t, v in sorted(wanted):
            d = req[t]["variables"][v]
            mine = [(k, n) for k, n, x in stored if x.get("name") == v and x["attributes"]["mipTable"] == d["mipTable"]]
            key = "%s %s" % (t, v)
            ctx.check(key + " stored", len(mine) >= 1 and all(n == d["variable_id"] for _, n in mine), "stored as %s" % (mine,), place)
            want = "_".join(["ACT", d["mipTable"], d["realm"].replace(" ", "_")])
            ctx.check(key + " group", all(k == want for k, _ in mine), "stored in %s" % (mine,), place)
            for n in d["dims"]:
                found = [x for k, m, x in dims if k == want and m == n]
                if n in ("", "None"):
                    ctx.check("%s no %r" % (key, n), not found, "an axis without a name", place)
                else:
                    ctx.check("%s axis %s" % (key, n), any(x["name"] == n and x["axis"] == req[t]["axes"][n] for x in found), "its axes are %s" % (found,), place)
        for x, k, val in coords:
            n = x["name"]
            ok = k == "definition" and (val in [defs[c][n] for c in defs if c.startswith("Coords_") and n in defs[c]] or n == "landUse" and val == [0, 1, 2, 3])
            ctx.check("definition of %s" % n, ok, "%s of the axis %s is %s" % (k, n, val), place)
        defined = {x["name"] for x, k, val in coords if k == "definition"}
        ctx.check("definitions of axes", {"lat", "time", "landUse"} <= defined, "axes get no definition: %s" % sorted({"lat", "time", "landUse"} - defined), place)
        said = []
        for e in r.events:
            if e.kind == "call" and name_of(e.f) == "print":
                for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                    said.append([w.soft(a, x) for a in e.args])
        for t, v in sorted({(t, v) for t in req for v in req[t]["variables"]} - wanted):
            ctx.check("%s %s reported" % (t, v), any(v in [str(p) for p in s] or any(isinstance(p, str) and v in p.split() for p in s) for s in said), "%s has no definition and nothing says so" % v, place)
    attempt(ctx, "request", one, place)


@rule("C27", "files", 8)
def files(ctx):
    """Each specification is written whole to a file of its own; in the test mode each variable with its dimensions is."""
    fn, r = run(ctx, "create_output", ("defineVar", "defineAxes"))
    place = ctx.place(fn)
    spec = {"A_Amon_atmos": {"tas": {"dimensions": ["time", "zz"], "n": 1}, "ta": {"dimensions": ["zz"], "n": 2}, "time": {"dimensions": ["time"]}, "zz": {"dimensions": ["zz"], "n": 3}},
            "A_Omon_ocean": {"tos": {"dimensions": ["time"], "n": 4}, "time": {"dimensions": ["time"], "n": 5}}}
    for test in (False, True):
        key = "test mode" if test else "all"

        def one():
            w = Request(r.an, {mk("arg", n): v for n, v in zip([a.arg for a in fn.node.args.args], [{}, {}, {}, {}, "/spec", None, "EXP", "/out", test])},
                        calls=dict(library(), exists=lambda p: True, open=lambda n, m="r", *a, **k: Obj("File", label=n, mode=m)))
            for e in r.events:
                if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "dump":
                    t = e.args[0]
                    while t.op == "sub":
                        t = t.args[0]
                    top = [l for l in e.loops if l.op == "alloc" or l.op == "call"]
                    for l in top:
                        x = l.args[0].args[0] if l.op == "call" and l.args[0].op == "attr" else l
                        if x.op == "alloc" and x.args[0] == "dict":
                            w.env[x] = spec
            out = []
            for e in r.events:
                if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "dump":
                    for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                        f = w.ev(e.args[1], x)
                        if not isinstance(f, Obj) or f.kind != "File":
                            raise Unknown("written to %r" % (f,))
                        out.append((f.fields["label"], f.fields["mode"], w.ev(e.args[0], x)))
            names = [n for n, _, _ in out]
            ctx.check(key + " names", len(set(names)) == len(names) and all(n.startswith("/spec/") and "EXP" in n and n.endswith(".json") for n in names) and all(m == "w" for _, m, _ in out),
                      "the files are %s" % names, place)
            if not test:
                for n, s in spec.items():
                    ctx.check("%s %s" % (key, n), len([1 for f, _, x in out if n in f and x == s]) == 1, "%s is not written whole" % n, place)
            else:
                for n, s in spec.items():
                    for v, d in s.items():
                        if "n" in d and v != "time":
                            want = dict({v: d}, **{k: s[k] for k in d["dimensions"]})
                            ctx.check("%s %s %s" % (key, n, v), len([1 for f, _, x in out if n in f and ("_%s_" % v) in f and x == want]) == 1, "%s is not written with its dimensions" % v, place)
        attempt(ctx, key, one, place)


# --------------------------------------------------------------------- definition files
LINES = [
    ("# TABLE: Amon", "", "tas = T + 1", "  pr=PRECC+PRECL  # *.h1.*", "x = f(a=1, b=2)", "bad line", "# just a comment", "# Coords: atmos", "lat=lat", "lev = vert(lev) # g.nc", "#TABLE : Omon", "tos=SST"),
    {"Amon": {"tas": "T + 1", "pr": "PRECC+PRECL", "x": "f(a=1, b=2)"}, "Coords_atmos": {"lat": "lat", "lev": "vert(lev)"}, "Omon": {"tos": "SST"}},
    {"Amon": {"tas": None, "pr": " *.h1.*", "x": None}, "Coords_atmos": {"lat": None, "lev": " g.nc"}, "Omon": {"tos": None}}]
GA = (("title = x", "activity_id =", "realm=", "# comment", "source = a: b=c", ""), {"ga": {"title": "x", "activity_id": FILL, "realm": FILL, "source": "a: b=c"}})


@rule("C27", "definitions", 12)
def definitions(ctx):
    """Each line name = text of a definition file is the definition of that name in the table (or coordinates) of the last heading, the text after the first = kept whole and that after #
    taken as input files; in an attribute file an empty text is one to be filled in; other lines are reported."""
    fn, r = run(ctx, "load")
    place = ctx.place(fn)

    def live(lines, key):
        w = Loading(r.an, {mk("arg", fn.node.args.args[0].arg): list(lines), mk("arg", fn.node.args.args[1].arg): key}, calls=library())
        said = []
        out = w.replayed(said)
        return out, said

    def table():
        (a, b), said = live(LINES[0], None)
        for n, want, got in (("definitions", LINES[1], a), ("input files", LINES[2], b)):
            for t in want:
                for v in want[t]:
                    x = got.get(t, {}).get(v, "nothing")
                    ctx.check("%s %s %s" % (n, t, v), (x or "").strip() == (want[t][v] or "").strip() and (x is None) == (want[t][v] is None), "%s of %s are %r" % (n, v, x), place)
            extra = {t: sorted(set(got[t]) - set(want.get(t, ()))) for t in got if set(got[t]) - set(want.get(t, ()))}
            ctx.check("%s nothing else" % n, not extra and set(got) == set(want), "also %s" % (extra or sorted(set(got) - set(want)),), place)
        ctx.check("bad lines", any("bad line" in s for s in said) and len(said) == 1, "reported are %s" % (said,), place)
    attempt(ctx, "definition file", table, place)

    def atts():
        a, said = live(GA[0], "ga")
        ctx.check("attribute file", a == GA[1], "the attributes are %s" % (a,), place)
    attempt(ctx, "attribute file", atts, place)


class Loading(Request):
    """the stores of each line, in the order of the lines"""

    def replayed(self, said):
        tops = {}
        inner = {}
        events = sorted((e for e in self.an.events if e.kind in ("setitem", "call") and e.fn is not None), key=lambda e: e.seq)
        self.live = tops

        def put(e, x):
            if e.kind == "call":
                if name_of(e.f) == "print":
                    said.append(" ".join(str(self.soft(a, x)) for a in e.args))
                return
            if e.obj.op == "alloc":
                d = tops.setdefault(e.obj, {})
                d[self.ev(e.name, x)] = {} if e.val.op == "alloc" and e.val.args[0] == "dict" else self.ev(e.val, x)
            elif e.obj.op == "sub" and e.obj.args[0].op == "alloc":
                k = self.ev(e.obj.args[1], x)
                d = tops.setdefault(e.obj.args[0], {})
                if k not in d:
                    raise Wrong("KeyError: %r" % (k,))
                d[k][self.ev(e.name, x)] = self.ev(e.val, x)
            else:
                raise Unknown(show(e.obj, 2))
        before = [e for e in events if not e.loops]
        for e in before:
            for x in self.happens((), e.guards, self.env, e.seq):
                put(e, x)
        loops = {e.loops[0] for e in events if e.loops}
        if len(loops) != 1 or any(len(e.loops) > 1 for e in events if e.kind == "setitem"):
            raise Unknown("several loops")
        for x in self.turns(list(loops)[0], self.env):
            for e in events:
                if e.loops and len(e.loops) == 1:
                    if self.together(e.guards, x):
                        put(e, x)
        for e in sorted((e for e in self.an.events if e.kind == "return" and e.fn is not None), key=lambda e: e.seq):
            try:
                ok = self.together(e.guards, dict(self.env))
            except Unknown:
                ok = None
            if ok:
                v = e.val
                if v.op == "tuple":
                    return tuple(tops.get(t, {}) for t in v.args)
                return tops.get(v, {})
        raise Unknown("what is returned")


@rule("C27", "sources", 4)
def sources(ctx):
    """The attributes of all attribute files, in their order, and the definitions go to the generation of every experiment's specifications; a list of variables of the user's own
    leads to a specification of these."""
    fn, r = run(ctx, "main", ("parseArgs", "load", "create_output", "create_non_mip_output", "getUserVars", "mip_table_parser"))
    place = ctx.place(fn)
    contents = {"a.ga": {"title": "x", "source": "one"}, "b.json": {"source": "two", "note": ""}, "c.ga": {"last": "z"}}

    def one():
        parsed = [e for e in r.events if e.kind == "call" and "parseArgs" in show(e.f, 3) and e.res is not None]
        done = [e for e in r.events if e.kind == "call" and "create_output" in show(e.f, 3)]
        if len(parsed) != 1 or len(done) != 1:
            raise Unknown("how the specifications are generated")
        for files, want in ((None, {}), ("a.ga", contents["a.ga"]), ("a.ga,b.json,c.ga", {"title": "x", "source": "two", "note": "", "last": "z"}), ("b.json,a.ga", {"title": "x", "source": "one", "note": ""})):
            opts = Obj("options", label="options", defFile="defs", globalAttrFile=files, exp="e1,e2", mip="None", miptables="t1", mipTableType="xml", userList=None, outputpath="/spec", outdir="/out",
                       testoutput=False)
            handle = lambda n, *a, **k: Obj("File", label=n)
            load = lambda f, key=None: {"ga": dict(contents[f.fields["label"]])} if key == "ga" else ("DEFS", "GLOBS")
            w = Request(r.an, {parsed[0].res: opts}, calls=dict(library(), isfile=lambda p: True, open=handle, load=lambda f, key=None: load(f, key) if isinstance(f, Obj) and f.fields["label"] != "b.json" else
                                                                dict(contents["b.json"]), mip_table_parser=lambda e, *a, **k: {"request of": e}))
            e = done[0]
            got = []
            for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                vals = [w.ev(a, x) for a in e.args]
                got.append(vals)
            key = "files %s" % files
            ctx.check(key + " experiments", [v[6] for v in got if len(v) > 6] == ["e1", "e2"] and all(v[0] == {"request of": v[6]} for v in got), "generated are %s" % [v[6:7] for v in got], place)
            for v in got[:1]:
                ctx.check(key + " attributes", v[3] == want, "the attributes are %s" % (v[3],), place)
                ctx.check(key + " definitions", v[1] == "DEFS" and v[2] == "GLOBS" and v[4] == "/spec" and v[7] == "/out" and v[8] is False, "handed over are %s" % (v[1:],), place)
    attempt(ctx, "files", one, place)
    fn2, r2 = run(ctx, "create_non_mip_output")
    place2 = ctx.place(fn2)

    def user():
        w = Request(r2.an, {mk("arg", n): v for n, v in zip([a.arg for a in fn2.node.args.args], [["tas:time.lat"], {"Amon": {"tas": "T"}, "Coords_atmos": {"time": "time", "lat": "lat"}}, "/spec"])},
                    calls=dict(library(), exists=lambda p: True, getcwd=lambda: "/cwd"))
        for e in r2.events:
            if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] == "dump":
                v = w.ev(e.args[0])
                ctx.check("variables of the user", isinstance(v, dict) and isinstance(v.get("tas"), dict) and v["tas"].get("dimensions") == ["time", "lat"] and "file" in v["tas"],
                          "the specification of tas:time.lat is %s" % (v,), place2)
    attempt(ctx, "variables of the user", user, place2)
