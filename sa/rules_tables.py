"""C28: the readers of MIP tables"""
from collections import defaultdict
from copy import deepcopy

from .pev import Obj, Timed, Tok, Unknown, Wrong
from .q import exc_name, name_of
from .rule import rule
from .rules_dates import returned
from .rules_mpi import attempt
from .rules_names import Names
from .terms import mk, show


class Reading(Timed, Names):
    """what is put into dictionaries that were read is in them when they are handed out"""

    def ev(self, t, env=None):
        if t.op in ("ext", "attr") and (name_of(t) or "").split(".")[-1] == "version" and t not in self.env:
            return "version"
        return super().ev(t, env)

    def effects(self):
        for e in sorted(self.an.events, key=lambda e: e.seq):
            if e.kind != "setitem" or e.obj.op == "alloc" and e.obj in self.an.recs:
                continue
            for x in self.happens(e.loops or (), e.guards, self.env, e.seq):
                made = self.target(e.obj, x)
                k, v = self.ev(e.name, x) if hasattr(e.name, "op") else e.name, self.ev(e.val, x)
                if made is not None:
                    self.extra.setdefault(made, []).append((k, v))
                else:
                    o = self.ev(e.obj, x)
                    if not isinstance(o, dict):
                        raise Unknown("item of %r" % (o,))
                    o[k] = v
                self.known.clear()


def has(o, n):
    if isinstance(o, Tok):
        raise Unknown(repr(o))
    return isinstance(o, Obj) and n in o.fields


def reader(ctx, cname):
    key = ("reader", cname)
    if key not in ctx.cache:
        c = ctx.p.cls("miptableparser." + cname)
        fn = c.find_method("parse_table")
        ctx.cache[key] = (fn, ctx.run(fn, cls=c))
    return ctx.cache[key]


def arguments(fn, exp="hist", mips=("CMIP",), tables=(), variables=()):
    """the values of the parameters: by position, as they are handed over"""
    names = [a.arg for a in fn.node.args.args]
    vals = [exp, list(mips), list(tables), list(variables), {}, {}, {}, {}, {}, {}]
    static = any(getattr(d, "id", "") == "staticmethod" for d in fn.node.decorator_list)
    names = names if static else names[1:]
    if len(names) < 4:
        raise Unknown("parameters of %s" % fn.name)
    return {mk("arg", n): v for n, v in zip(names, vals)}


def read(ctx, cname, calls, **given):
    fn, r = reader(ctx, cname)
    w = Reading(r.an, arguments(fn, **given), calls=dict({"print": lambda *a, **k: None, "hasattr": has}, **calls))
    w.effects()
    kind, v = returned(r, w)
    if kind == "raises":
        raise Wrong(v)
    return v


def compare(ctx, key, got, want, place):
    """want: {table: {'variables': {name: entries}, 'axes': {name: entries}, 'table_info': entries}}"""
    ok = isinstance(got, dict) and set(got) == set(want) and all(isinstance(t, dict) and {"variables", "axes", "table_info"} <= set(t) for t in got.values())
    ctx.check(key + " tables", ok, "the tables are %s instead of %s" % (sorted(map(str, got)) if isinstance(got, dict) else got, sorted(want)), place)
    if not ok or not all(isinstance(x, dict) for t in got.values() for x in t.values()):
        return
    for t in sorted(want):
        vs, axes, info = got[t]["variables"], got[t]["axes"], got[t]["table_info"]
        ctx.check("%s %s variables" % (key, t), set(vs) == set(want[t]["variables"]), "the variables are %s instead of %s" % (sorted(map(str, vs)), sorted(want[t]["variables"])), place)
        for v, entries in sorted(want[t]["variables"].items()):
            if v in vs:
                off = {k: vs[v].get(k) for k, x in entries.items() if vs[v].get(k) != x}
                # what stands for "not given" is no value
                stray = {k: x for k, x in vs[v].items() if isinstance(x, Obj)}
                ctx.check("%s %s %s values" % (key, t, v), not stray, "its entries %s stand for nothing" % sorted(stray), place)
                ctx.check("%s %s %s" % (key, t, v), not off, "its entries %s should be %s" % (off, {k: entries[k] for k in off}), place)
        ctx.check("%s %s axis names" % (key, t), all(isinstance(a, str) for a in axes) and set(want[t]["axes"]) <= set(axes) <= set(want[t]["axes"]) | want[t].get("also", set()), "the axes are %s instead of %s" % (list(axes), sorted(want[t]["axes"])), place)
        for a, entries in sorted(want[t]["axes"].items()):
            if a in axes:
                off = {k: axes[a].get(k) for k, x in entries.items() if axes[a].get(k) != x}
                ctx.check("%s %s axis %s" % (key, t, a), not off, "its entries %s should be %s" % (off, {k: entries[k] for k in off}), place)
        off = {k: info.get(k) for k, x in want[t]["table_info"].items() if info.get(k) != x}
        ctx.check("%s %s information" % (key, t), not off, "the entries %s should be %s" % (off, {k: want[t]["table_info"][k] for k in off}), place)


# ------------------------------------------------------------------------- CMOR
def cmor_files():
    v = lambda dims, **k: dict({"dimensions": dims, "units": "K", "modeling_realm": "own realm", "frequency": "own"}, **k)
    return {
        "/t/Amon.json": {"Header": {"table_id": "Table Amon", "realm": "atmos", "frequency": "mon", "generic_levels": "alevel"},
                         "variable_entry": {"tas": v("longitude latitude time height2m"), "ta": v("longitude  latitude alevel time", units="1"), "co2": v("time")},
                         "axis_entry": {"longitude": {"units": "degrees_east"}, "latitude": {"units": "degrees_north"}, "time": {"units": "days"}, "height2m": {"value": "2."}, "unused": {"units": "m"}}},
        "/t/Omon.json": {"Header": {"table_id": "Omon"}, "variable_entry": {"tos": v("longitude latitude time"), "area": v("")}},
        "/t/day.json": {"Header": {"table_id": "Table day", "realm": "atmos"}, "variable_entry": {"tas": v("time")}, "axis_entry": {"time": {"units": "days 2"}}},
    }


@rule("C28", "cmor", 30)
def cmor(ctx):
    """Every CMOR table gives, under its name, all listed variables that are in it (with what the table says about them), the axes that they use and the header."""
    fn, r = reader(ctx, "ParseCmorTable")
    place = ctx.place(fn)
    for case, files, wanted in (("one", ["/t/Amon.json"], []), ("three", ["/t/Amon.json", "/t/Omon.json", "/t/day.json"], []), ("listed", ["/t/Amon.json", "/t/Omon.json", "/t/day.json"], ["tas", "tos"]),
                                ("none of them", ["/t/Amon.json"], ["zz"]), ("no table", [], [])):
        def run():
            content = cmor_files()
            loaded = {}
            load = lambda f: loaded.setdefault(f, deepcopy(content[f]))
            got = read(ctx, "ParseCmorTable", {"open": lambda p, *a, **k: p, "load": load, "loads": load, "read": lambda f: f}, tables=files, variables=wanted)
            want = {}
            for f in files:
                c = content[f]
                h, name = c["Header"], c["Header"]["table_id"].replace("Table ", "")
                vs = {v: dict(e, variable_id=v, mipTable=name, coordinates="|".join(e["dimensions"].split())) for v, e in c["variable_entry"].items() if not wanted or v in wanted}
                for e in vs.values():
                    e["realm"], e["frequency"] = h.get("realm", e["modeling_realm"]), h.get("frequency", e["frequency"])
                used = {d for e in vs.values() for d in e["dimensions"].split()}
                want[name] = {"variables": vs, "axes": {a: x for a, x in c.get("axis_entry", {}).items() if a in used}, "table_info": h}
            compare(ctx, case, got, want, place)
        attempt(ctx, case, run, place)


# ------------------------------------------------------------------ spreadsheets
def sheet(rows):
    cells = [tuple(Obj("Cell", value=x, label=str(x)) for x in row) for row in rows]
    cols = list(zip(*cells))
    at = lambda row, column: cells[row - 1][column - 1]
    return Obj("Sheet", rows=cells, columns=cols, max_row=len(rows), max_column=len(cols), cell=at, values=[tuple(r) for r in rows],
               iter_rows=lambda min_row=1, max_row=None, values_only=False, **k: [tuple(r) for r in (rows if values_only else cells)][min_row - 1:max_row],
               iter_cols=lambda values_only=False, **k: list(zip(*rows)) if values_only else cols, __iter__=cells, __getitem__=lambda i: cells[i - 1])


def workbooks():
    cols = ["Priority", "Variable Name", "dimensions", "units"]
    return {"/t/a.xlsx": {"Notes": [["whatever"]], "Amon": [cols, [1, "tas", "longitude latitude time ", "K"], [2, "ta", "longitude  latitude plev time", "K"], [1, "fx", "", "1"]],
                          "day": [cols[::-1], ["K", "time", "tas", 3]]},
            "/t/b.xlsx": {"Omon": [cols, [1, "tos", "longitude latitude time", "degC"]], "empty": [cols]}}


@rule("C28", "spreadsheet", 25)
def spreadsheet(ctx):
    """Every sheet but the notes gives, under its name, all listed variables with their columns, and the axes that they use."""
    fn, r = reader(ctx, "ParseExcel")
    place = ctx.place(fn)
    for case, files, wanted in (("one", ["/t/a.xlsx"], []), ("two", ["/t/a.xlsx", "/t/b.xlsx"], []), ("listed", ["/t/a.xlsx", "/t/b.xlsx"], ["tas"]), ("others", ["/t/b.xlsx", "/t/a.xlsx"], ["ta", "fx"])):
        def run():
            content = workbooks()

            def book(p, *a, **k):
                sheets = {n: sheet(rows) for n, rows in content[p].items()}
                names = list(sheets)
                return Obj("Workbook", label=p, sheetnames=names, get_sheet_names=lambda: names, get_sheet_by_name=sheets.get, __getitem__=sheets.__getitem__, worksheets=list(sheets.values()))
            got = read(ctx, "ParseExcel", {"load_workbook": book}, tables=files, variables=wanted)
            want = {}
            for f in files:
                for n, rows in content[f].items():
                    if n != "Notes":
                        es = [dict(zip(rows[0], row)) for row in rows[1:]]
                        vs = {e["Variable Name"]: dict(e, variable_id=e["Variable Name"], mipTable=n, coordinates="|".join(e["dimensions"].split())) for e in es if not wanted or e["Variable Name"] in wanted}
                        want[n] = {"variables": vs, "axes": {d: {} for e in vs.values() for d in e["dimensions"].split()}, "table_info": {"table_id": n}}
            compare(ctx, case, got, want, place)
        attempt(ctx, case, run, place)


# ----------------------------------------------------------------------- choice
@rule("C28", "choice", 5)
def choice(ctx):
    """Each kind of table is read by its reader with all that was given; any other kind is an error."""
    fn = ctx.p.func("miptableparser.mip_table_parser")
    place = ctx.place(fn)
    readers = {"excel": "ParseExcel", "cmor": "ParseCmorTable", "xml": "ParseXML"}
    r = ctx.run(fn, opaque={"parse_table"})
    vals = ["hist", ["CMIP"], ["Amon"], ["tas"]]
    names = [a.arg for a in fn.node.args.args]
    for kind, cname in list(readers.items()) + [("XML", None), ("", None), (None, None), ("netcdf", None)]:
        key = "kind %s" % kind

        def run():
            env = {mk("arg", n): v for n, v in zip(names, vals + [kind, {"u": 1}, {"u": 2}, {"u": 3}])}
            seen = []

            def parse(*a, **k):
                seen.append(a)
                return {"read by": 1}
            w = Reading(r.an, env, calls={"parse_table": parse, "print": lambda *a, **k: None})
            done = []
            for e in r.events:
                if e.kind == "call" and "parse_table" in show(e.f, 3):
                    for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                        done.append((e, [w.soft(a, x) for a in e.args], {k: w.soft(v, x) for k, v in e.kw}))
            how = None
            try:
                how = returned(r, w)[0]
            except Unknown:
                pass
            exits = [e for e in r.events if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] in ("exit", "_exit") and w.happens(e.loops or (), e.guards, w.env, e.seq)]
            if cname is None:
                ctx.check(key, how == "raises" or bool(exits), "%r is not an error" % (kind,), place)
                return
            ctx.check(key, len(done) == 1 and how != "raises", "read %s times" % len(done), place)
            if len(done) != 1:
                return
            e, args, kw = done[0]
            whose = show(e.f, 4)
            rd = ctx.p.cls("miptableparser." + cname).find_method("parse_table")
            target = [a.arg for a in rd.node.args.args]
            target = target[1:] if target[:1] == ["self"] else target
            given = dict(zip(target, args), **kw)
            ctx.check(key + " reader", cname in whose and not any(o in whose for o in readers.values() if o != cname), "%r is read by %s" % (kind, whose), place)
            ctx.check(key + " arguments", [given.get(t) for t in target[:4]] == vals and [given.get(t) for t in target[-3:]] == [{"u": 1}, {"u": 2}, {"u": 3}], "handed over are %s" % ([given.get(t) for t in target],), place)
        attempt(ctx, key, run, place)


@rule("C28", "names", 8)
def names(ctx):
    """A field name is recognised under its standard name, a synonym or one of the user's names; any other is an error."""
    fn = ctx.p.func("miptableparser._get_key")
    place = ctx.place(fn)
    r = ctx.run(fn)
    table = {"id": ["id", "label"], "units": ["units"], "title": []}
    for key, user, want in (("id", {}, "id"), ("label", {}, "id"), ("units", {}, "units"), ("Name", {"title": ["Name"]}, "title"), ("label", {"title": ["Name"]}, "id"), ("Name", {}, None),
                            ("", {}, None), ("i", {}, None), ("Unit", {"units": ["unit"]}, None), ("title", {}, None)):
        name = "%r with %s" % (key, sorted(user))

        def run():
            w = Reading(r.an, {mk("arg", n): v for n, v in zip([a.arg for a in fn.node.args.args], [key, table, user])}, calls={"print": lambda *a, **k: None})
            for e in sorted((e for e in r.events if e.kind in ("return", "raise", "call")), key=lambda e: e.seq):
                if e.kind == "call" and (name_of(e.f) or "").split(".")[-1] not in ("exit", "_exit"):
                    continue
                for x in w.happens(e.loops or (), e.guards, w.env, e.seq):
                    if e.kind != "return":
                        ctx.check(name, want is None, "%r is an error" % key, place)
                    else:
                        ctx.check(name, want is not None and w.ev(e.val, x) == want, "%r gives %r" % (key, w.ev(e.val, x)), place)
                    return
            ctx.check(name, False, "%r gives nothing" % key, place)
        attempt(ctx, name, run, place)


# ----------------------------------------------------------------- data request
class Request:
    """a small data request"""

    def __init__(self):
        self.uid, self.refs, self.cmor, self.vars, self.grids = {}, {}, [], [], {}
        self.groups, self.links, self.items, self.experiments = {}, {}, {}, defaultdict(list)

    def put(self, kind, uid, **f):
        self.uid[uid] = Obj(kind, **dict({"uid": uid, "label": uid}, **f))
        return self.uid[uid]

    def variable(self, label, table, spatial="longitude|latitude", time="time", dids=None, cids=None, name=None, structure=True, **f):
        n = "%s.%s" % (table, label)
        # what is there of a structure
        if structure:
            s = {"spid": n + ".sp", "tmid": n + ".tm", "cell_methods": "area: mean", "cell_measures": "area: areacella", "coords": "", "cids": cids or Obj("dreqItem_CoreAttributes"),
                 "dids": dids or Obj("dreqItem_CoreAttributes")}
            if spatial is None:
                del s["spid"]
            else:
                self.put("spatial", n + ".sp", dimensions=spatial)
            if time is None:
                del s["tmid"]
            else:
                self.put("temporal", n + ".tm", dimensions=time, title="T " + time)
            self.put("structure", n + ".st", **s)
            f["stid"] = n + ".st"
        self.put("var", n + ".v", label=name or label, sn="sn_" + label, units=f.pop("units", "K"))
        v = self.put("CMORvar", n, **dict({"label": label, "mipTable": table, "frequency": "mon", "modeling_realm": "atmos", "title": "long " + label, "type": "real", "positive": "",
                                           "description": "D", "vid": n + ".v"}, **f))
        self.cmor.append(v)
        return n

    def group(self, name, *variables):
        for v in variables:
            self.put("requestVar", name + "." + v, vid=v)
        self.groups[name] = self.put("requestVarGroup", name)
        self.links[name + ".l"] = self.put("requestLink", name + ".l", refid=name)
        self.refs[name] = {"requestVar": [name + "." + v for v in variables]}

    def item(self, uid, mip, group, *owners):
        self.put("requestItem", uid, mip=mip, rlid=group + ".l")
        for o in owners:
            self.refs.setdefault(o, {}).setdefault("requestItem", []).append(uid)

    def grid(self, name, **f):
        self.grids[name] = self.put("grids", "grid." + name, **dict({"label": name, "units": "degrees", "axis": "", "type": "double", "title": name, "value": "", "requested": "", "positive": "",
                                                                      "bounds": "yes", "standardName": "sn_" + name, "valid_max": Obj("none"), "valid_min": 0.0}, **f))

    def loaded(self):
        refs = defaultdict(lambda: Obj("refs", a=defaultdict(list)))
        for o, d in self.refs.items():
            a = defaultdict(list)
            a.update(d)
            refs[o] = Obj("refs", a=a)
        labels = {g: [o.fields["uid"]] for g, o in self.grids.items()}
        # a name that was asked for before, without an entry
        labels["nowhere"] = []
        section = lambda objs: Obj("section", uid={o.fields["uid"]: o for o in objs}, label={})
        inx = Obj("inx", uid=self.uid, iref_by_sect=refs, experiment=Obj("section", label=self.experiments), requestLink=section(self.links.values()), requestVarGroup=section(self.groups.values()),
                  grids=Obj("section", uid={o.fields["uid"]: o for o in self.grids.values()}, label={g: x for g, x in labels.items() if x}))
        return Obj("dreq", inx=inx, coll={"CMORvar": Obj("coll", items=self.cmor)})


def the_request():
    q = Request()
    for g in ("longitude", "latitude", "time", "plev19", "gridlatitude", "basin", "height2m", "tau"):
        q.grid(g, **({"units": ""} if g == "basin" else {"bounds": "no"} if g == "plev19" else {}))
    q.grid("landUse", type="character")
    for g in ("effectRadLi", "time1", "vegtype"):
        q.grid(g)
    did = lambda *ns: tuple("grid." + n for n in ns)
    q.group("Amon", q.variable("tas", "Amon"), q.variable("ta", "Amon", spatial="longitude|latitude|plev19", valid_max=9.0, valid_min=Obj("none")), q.variable("co2mass", "Amon", spatial="", valid_max=Obj("none"), valid_min=-1.0),
            q.variable("tasday", "day", name="tas", frequency="day"))
    q.group("one", q.variable("mean", "Amon1", spatial="", time="time1"))
    q.group("none", q.variable("fixed", "fx", time="None"), q.variable("still", "fx", time="", spatial="longitude|latitude|"))
    q.group("extra", q.variable("jpdf", "Emon", dids=did("effectRadLi", "tau")), q.variable("msft", "Emon", spatial="latitude|plev19|", dids=did("basin")), q.variable("veg", "Emon", spatial="longitude|latitude", time="None", dids=did("vegtype")))
    q.group("rotated", q.variable("rot", "Ofx", spatial="grid_latitude|plev19"), q.variable("scalar", "Ofx", cids=["grid.height2m"]), q.variable("unitless", "Ofx", units="", time=None))
    q.group("land", q.variable("lu", "Lmon", spatial="longitude|latitude|landUse", modeling_realm="land"), q.variable("unknown", "Lmon", spatial="longitude|latitude|nogrid"),
            q.variable("nost", "Lmon", structure=False))
    for e, owner in (("hist", "CMIP"), ("historical", "CMIP"), ("ssp", "ScenarioMIP")):
        q.put("experiment", e, mip=owner, egid=e + ".g", title="the " + e)
        q.experiments[e] = [e]
    q.item("i1", "CMIP", "Amon", "hist", "historical", "ssp")
    q.item("i2", "OMIP", "one", "hist.g")
    q.item("i3", "CMIP", "none", "CMIP")
    q.item("i4", "CMIP", "extra", "hist")
    q.item("i5", "CMIP", "rotated", "historical.g", "hist")
    q.item("i6", "CMIP", "land", "hist", "ssp")
    return q


def expected_request(q, exp, mips, tables, wanted):
    known = exp if "--ALL--" not in exp and q.experiments.get(exp) else "historical"
    e = q.uid[known].fields
    out = {}
    for owner in (known, e["egid"], e["mip"]):
        for ri in q.refs.get(owner, {}).get("requestItem", []):
            it = q.uid[ri].fields
            if not (it["mip"] in mips or "--ALL--" in mips or "--ALL--" in exp):
                continue
            group = q.uid[it["rlid"]].fields["refid"]
            info = {"table_id": group}
            if "--ALL--" not in exp:
                info.update(experiment_id=exp, activity_id=e["mip"], experiment=e["title"])
            ids = [q.uid[v].fields["vid"] for v in q.refs[group]["requestVar"]]
            if wanted:
                ids = [v.fields["uid"] for w in wanted for v in q.cmor if "%s:%s" % (v.fields["label"], v.fields["mipTable"]) == w]
            vs, axes = {}, {}
            for i in ids:
                c = q.uid[i].fields
                if not (c["mipTable"] in tables or "--ALL--" in tables):
                    continue
                v = q.uid[c["vid"]].fields
                d = {"mipTable": c["mipTable"], "variable_id": v["label"], "id": c["label"], "frequency": c["frequency"], "realm": c["modeling_realm"], "type": c["type"], "positive": c["positive"],
                     "title": c["title"], "standard_name": v["sn"], "units": v["units"] or "None", "description": c["description"]}
                dims = []
                if "stid" in c:
                    s = q.uid[c["stid"]].fields
                    d.update(cell_methods=s["cell_methods"], cell_measures=s["cell_measures"])
                    sp = q.uid[s["spid"]].fields["dimensions"] if "spid" in s else ""
                    tm = q.uid[s["tmid"]].fields["dimensions"] if "tmid" in s else ""
                    dims = [x.replace("grid_latitude", "gridlatitude") for x in sp.split("|") if x]
                    dims += [q.uid[x].fields["label"] for x in s["dids"]] if isinstance(s["dids"], tuple) else []
                    dims += [tm] if tm not in ("", "None") else []
                    d["coordinates"] = "|".join(dims)
                for k in ("valid_max", "valid_min"):
                    if isinstance(c.get(k), float):
                        d[k] = c[k]
                vs[c["label"]] = d
                for a in dims:
                    if a in q.grids:
                        g = q.grids[a].fields
                        axes[a] = {"units": g["units"] or "1", "type": "int" if a == "landUse" else g["type"], "standard_name": g["standardName"], "axis": g["axis"],
                                   "positive": g["positive"], "requested": g["requested"], "value": g["value"], "valid_min": 0.0}
                        if "yes" in g["bounds"]:
                            axes[a]["bounds"] = a + "_bnds"
            scalar = {q.uid[x].fields["label"] for i in ids for st in [q.uid[i].fields.get("stid")] if st for x in (q.uid[st].fields["cids"] if isinstance(q.uid[st].fields["cids"], list) else [])}
            out["%s_%s" % (it["mip"], group)] = {"variables": vs, "axes": axes, "table_info": info, "also": scalar}
    return out


ALL = ("--ALL--",)


@rule("C28", "request", 60)
def request(ctx):
    """For every item of the data request that concerns the experiment and the activities, its table holds the variables of the tables that are asked for, with their dimensions, and all their
    axes."""
    fn, r = reader(ctx, "ParseXML")
    place = ctx.place(fn)
    for case, exp, mips, tables, wanted in (("everything", "--ALL--", ALL, ALL, []), ("all tables", "hist", ALL, ALL, []), ("one table", "hist", ["CMIP"], ["Amon"], []),
                                            ("table of a mean", "hist", ["OMIP"], ["Amon1"], []), ("two tables", "hist", ALL, ["Emon", "fx"], []), ("other experiment", "ssp", ALL, ALL, []),
                                            ("unknown experiment", "other", ["CMIP"], ALL, []), ("no activity", "hist", [], ALL, []), ("every experiment", "--ALL--", ["OMIP"], ALL, []),
                                            ("listed", "ssp", ["CMIP"], ALL, ["ta:Amon", "lu:Lmon", "zz:Amon"])):
        def run():
            loaded = the_request().loaded()
            got = read(ctx, "ParseXML", {"loadDreq": lambda *a, **k: loaded}, exp=exp, mips=mips, tables=tables, variables=wanted)
            compare(ctx, case, got, expected_request(the_request(), exp, mips, tables, wanted), place)
        attempt(ctx, case, run, place)

    def twice():
        q = Request()
        q.grid("time")
        q.group("both", q.variable("tas", "Amon", spatial=""), q.variable("tas", "day", spatial=""))
        q.put("experiment", "hist", mip="CMIP", egid="g", title="the hist")
        q.experiments["hist"] = ["hist"]
        q.item("i", "CMIP", "both", "hist")
        loaded = q.loaded()
        got = read(ctx, "ParseXML", {"loadDreq": lambda *a, **k: loaded}, exp="hist", mips=ALL, tables=ALL)
        there = sorted(v["mipTable"] for t in got.values() for v in t["variables"].values())
        ctx.check("same name in two tables", there == ["Amon", "day"], "of the variable in Amon and day there is only the one in %s" % " and ".join(there), place)
    attempt(ctx, "same name in two tables", twice, place)
