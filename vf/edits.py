"""Edits a user can make to a document: located by walking it with the model's knowledge of types."""
from vf import gen as G
from vf import model as M
from vf import pools as P
from vf.common import clone

RANGES = {
    "u8": (0, 255), "u16": (0, 65535), "i32": (-(1 << 31), (1 << 31) - 1), "u32": (0, (1 << 32) - 1),
    "i64": (-(1 << 63), (1 << 63) - 1), "u64": (0, (1 << 64) - 1),
}
INTTYPES = set(RANGES)
LEAFTYPE = {
    "IntProperty": "i32", "Int64Property": "i64", "FixedPoint64Property": "i32", "FloatProperty": "f32",
    "StrProperty": "str", "NameProperty": "str",
}


class Walk:
    """Collects sites: ("leaf", path, type), ("list", path), ("props", path), ("whole", path, maker), ("id", path)."""

    def __init__(self, doc):
        self.sites = []
        self.blobs = []  # (path of the raw data property, schema, extra bytes behind the schema or None)
        self.props(doc["properties"], ("properties",))
        self.header(doc["header"])
        self.sites.append(("whole", ("trailer",), lambda g: g.trailer()))

    def header(self, h):
        p = ("header",)
        for k in ("package_file_version_ue4", "package_file_version_ue5"):
            self.leaf(p + (k,), "i32")
        for k in ("engine_version_major", "engine_version_minor", "engine_version_patch"):
            self.leaf(p + (k,), "u16")
        self.leaf(p + ("engine_version_changelist",), "u32")
        self.leaf(p + ("engine_version_branch",), "str")
        self.leaf(p + ("save_game_class_name",), "str")
        if h["custom_versions"]:
            self.sites.append(("list", p + ("custom_versions",)))
            self.leaf(p + ("custom_versions", 0, 0), "guid")
            self.leaf(p + ("custom_versions", 0, 1), "i32")

    def leaf(self, path, t):
        self.sites.append(("leaf", path, t))

    def props(self, props, path):
        self.sites.append(("props", path))
        for k, p in props.items():
            self.prop(k, p, path + (k,))

    def prop(self, name, p, path):
        self.sites.append(("id", path + ("id",)))
        ct = p.get("custom_type")
        if ct is not None:
            return self.custom(ct, p, path)
        t = p["type"]
        v = path + ("value",)
        if t in LEAFTYPE:
            if name not in G.RESERVED:
                self.leaf(v, LEAFTYPE[t])
        elif t == "EnumProperty":
            if name not in G.RESERVED:
                self.leaf(v + ("value",), "str")
            self.leaf(v + ("type",), "str")
        elif t == "BoolProperty":
            self.leaf(v, "bool")
        elif t == "StructProperty":
            self.leaf(path + ("struct_id",), "guid")
            self.structval(p["struct_type"], p["value"], v)
        elif t == "ArrayProperty":
            at, val = p["array_type"], p["value"]
            if at == "StructProperty":
                self.leaf(v + ("id",), "guid")
                self.elements(val["values"], v + ("values",), lambda e, q: self.structval(val["type_name"], e, q))
            elif at == "ByteProperty":
                self.leaf(v + ("values",), "bytes")
            else:
                lt = "guid" if at == "Guid" else "str"
                self.elements(val["values"], v + ("values",), lambda e, q: self.leaf(q, lt))
        elif t == "MapProperty":
            self.mapping(p, v, lambda e, q: self.val(p["value_type"], p["value_struct_type"], e["value"], q + ("value",)))

    def mapping(self, p, v, valfn):
        def one(e, q):
            self.val(p["key_type"], p["key_struct_type"], e["key"], q + ("key",))
            valfn(e, q)

        self.elements(p["value"], v, one)

    def elements(self, lst, path, fn):
        self.sites.append(("list", path))
        for i, e in enumerate(lst[:6]):
            fn(e, path + (i,))

    def val(self, t, st, v, path):
        if t == "StructProperty":
            self.structval(st, v, path)
        else:
            self.leaf(path, {"IntProperty": "i32", "BoolProperty": "bool"}.get(t, "str"))

    def structval(self, st, v, path):
        if st in ("Vector", "Quat"):
            for k in v:
                self.leaf(path + (k,), "f64")
        elif st == "LinearColor":
            for k in v:
                self.leaf(path + (k,), "f32")
        elif st == "DateTime":
            self.leaf(path, "u64")
        elif st == "Guid":
            self.leaf(path, "guid")
        else:
            self.props(v, path)

    # ------------------------------------------------------------ raw data
    def rec(self, schema, v, path):
        for f, t in schema:
            self.typed(t, v[f], path + (f,))

    def typed(self, t, v, path):
        if t.__class__ is str:
            if t == "props":
                self.props(v, path)
            elif t == "vec" or t == "quat":
                for k in v:
                    self.leaf(path + (k,), "f64")
            elif t == "xform":
                for k in v:
                    for c in v[k]:
                        self.leaf(path + (k, c), "f64")
            elif t in ("rotator", "packed1"):
                self.sites.append(("whole", path, lambda g, t=t: g.val(t)))
            elif t == "rest":
                pass
            else:
                self.leaf(path, "bool" if t == "b32" else t)
        elif t[0] == "arr":
            self.elements(v, path, lambda e, q: self.typed(t[1], e, q))
        elif t[0] == "rec":
            self.rec(t[1], v, path)
        elif t[0] == "raw":
            n = t[1]
            self.sites.append(("whole", path, lambda g: list(g.s.bytes(n))))

    def blob(self, schema, rawprop, path):
        self.sites.append(("id", path + ("id",)))
        v = rawprop["value"]
        if v is None:
            return
        if "values" in v:
            return
        self.blobs.append((path, schema))
        self.rec(schema, v, path + ("value",))

    def custom(self, ct, p, path):
        w = M.W
        v = path + ("value",)
        simple = {
            w + "CharacterSaveParameterMap.Value.RawData": M.CHARACTER,
            w + "ItemContainerSaveData.Value.RawData": M.ITEM_CONTAINER,
            w + "ItemContainerSaveData.Value.Slots.Slots.RawData": M.ITEM_SLOT,
            w + "CharacterContainerSaveData.Value.Slots.Slots.RawData": M.CHARACTER_SLOT,
            w + "FoliageGridSaveDataMap.Value.ModelMap.Value.RawData": M.FOLIAGE,
            w + "FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData": M.FOLIAGE_INST,
            w + "BaseCampSaveData.Value.RawData": M.BASE_CAMP,
            w + "BaseCampSaveData.Value.WorkerDirector.RawData": M.WORKER_DIRECTOR,
            w + "BaseCampSaveData.Value.WorkCollection.RawData": M.WORK_COLLECTION,
        }
        if ct in simple:
            self.blob(simple[ct], p, path)
        elif ct == w + "DynamicItemSaveData.DynamicItemSaveData.RawData":
            self.sites.append(("whole", v, lambda g: g.dynamic_value()))
        elif ct == w + "GroupSaveDataMap":
            def one(e, q):
                gt = e["value"]["GroupType"]["value"]["value"]
                self.around(e["value"], q + ("value",))
                self.blob(M.GROUP.get(gt, M.GROUP_OTHER), e["value"]["RawData"], q + ("value", "RawData"))

            self.mapping(p, v, one)
        elif ct == w + "BaseCampSaveData.Value.ModuleMap":
            def one(e, q):
                self.around(e["value"], q + ("value",))
                if e["key"] == M.CAMP_TRANSPORT:
                    self.blob(M.TRANSPORT, e["value"]["RawData"], q + ("value", "RawData"))

            self.elements(p["value"], v, one)
        elif ct == w + "WorkSaveData":
            def assign(e, q):
                self.leaf(q + ("key",), "i32")
                self.around(e["value"], q + ("value",))
                self.blob(M.WORK_ASSIGN, e["value"]["RawData"], q + ("value", "RawData"))

            def one(e, q):
                wt = e["WorkableType"]["value"]["value"]
                self.around(e, q)
                r = q + ("RawData",)
                if "values" not in e["RawData"]["value"]:
                    self.blob(M.work_schema(wt), e["RawData"], r)

                    def transform(g):
                        while True:
                            _, x = g.work_value()
                            if "transform" in x:
                                return x["transform"]

                    self.sites.append(("whole", r + ("value", "transform"), transform))
                self.elements(e["WorkAssignMap"]["value"], q + ("WorkAssignMap", "value"), assign)

            self.elements(p["value"]["values"], v + ("values",), one)
        elif ct == w + "MapObjectSaveData":
            def module(e, q):
                self.around(e["value"], q + ("value",))
                self.blob(M.MODULE.get(e["key"], []), e["value"]["RawData"], q + ("value", "RawData"))

            def one(e, q):
                self.around(e, q)
                m = q + ("Model", "value")
                mv = e["Model"]["value"]
                self.around(mv, m)
                self.blob(M.MAP_MODEL, mv["RawData"], m + ("RawData",))
                self.blob(M.BUILD_PROCESS, mv["BuildProcess"]["value"]["RawData"], m + ("BuildProcess", "value", "RawData"))
                self.sites.append(("whole", m + ("Connector", "value", "RawData", "value"), lambda g: g.connector_value()))
                c = q + ("ConcreteModel", "value")
                cv = e["ConcreteModel"]["value"]
                self.around(cv, c)
                r = cv["RawData"]["value"]
                if "values" not in r:
                    sch = M.CONCRETE_BASE + M.CONCRETE.get(r["concrete_model_type"], [])
                    self.blob(sch, cv["RawData"], c + ("RawData",))
                    if "state_machine" in r:
                        self.typed(M.FARM_STATE, r["state_machine"], c + ("RawData", "value", "state_machine"))
                self.elements(cv["ModuleMap"]["value"], c + ("ModuleMap", "value"), module)

            self.elements(p["value"]["values"], v + ("values",), one)
        else:
            raise KeyError(ct)

    def around(self, props, path):
        """The siblings of the properties a decoder looks at."""
        self.sites.append(("props", path))
        for k, p in props.items():
            if k not in G.RESERVED:
                self.prop(k, p, path + (k,))
            else:
                self.sites.append(("id", path + (k, "id")))


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def leafval(g, t):
    s = g.s
    if t == "f32":
        return g.f32()
    if t == "f64":
        return g.f64()
    if t == "str":
        return g.text()
    if t == "guid":
        return g.guid()
    if t == "bool":
        return bool(s.draw(2))
    if t == "bytes":
        return list(s.bytes(P.length(s, 300)))
    lo, hi = RANGES[t]
    return P.integer(s, lo, hi)


def decoded(doc, path):
    for k in path:
        if doc.__class__ is dict and "custom_type" in doc:
            return True
        doc = doc[k]
    return False


def alias(g, doc, want):
    """Append an entry of a list a second time, as the very same object: (description, fn(list owner, copying))."""
    s = g.s
    # not where a decoder of the program holds the list: its encoder consumes what it is given
    sites = [x[1] for x in Walk(doc).sites if x[0] == "list" and want(x) and len(at(doc, x[1])) and not decoded(doc, x[1])]
    if not sites:
        return None
    path = s.choice(sites)
    i = s.draw(len(at(doc, path)))
    k = s.choice([1, 1, 2, 5])

    def fn(d, copying):
        q = at(d, path)
        e = q[i]
        for _ in range(k):
            q.append(clone(e) if copying else e)

    return f"append entry {i} itself to {'/'.join(map(str, path))} {k} times", fn


def pick(g, doc, want=None):
    """One edit: (description, fn(document)) applicable to the document and anything equal to it."""
    s = g.s
    sites = Walk(doc).sites
    if want:
        sites = [x for x in sites if want(x)]
        if not sites:
            return None
    x = s.choice(sites)
    kind, path = x[0], x[1]
    where = "/".join(str(k) for k in path)
    if kind == "leaf" or kind == "whole" or kind == "id":
        old = at(doc, path)
        if kind == "leaf":
            v = leafval(g, x[2])
            if x[2] == "str" and s.chance(1, 3) and isinstance(old, str):
                v = P.norm16(s.choice([old + v, v + old, old[:-1], old[1:], old * 2]))
            if path[-1] == "key" and False:
                pass
        elif kind == "whole":
            v = x[2](g)
        else:
            v = g.guid() if s.chance(2, 3) else None

        def fn(d):
            at(d, path[:-1])[path[-1]] = clone(v)

        return f"set {where} to {v!r:.80}", fn
    if kind == "list":
        lst = at(doc, path)
        n = len(lst)
        if n == 0:
            return pick(g, doc, lambda q: q[0] != "list") if want is None else None
        r = s.draw(4)
        i, j = s.draw(n), s.draw(n + 1)
        if r == 0:
            def fn(d):
                at(d, path).pop(i)

            return f"remove entry {i} of {where}", fn
        if r == 1:
            def fn(d):
                q = at(d, path)
                q.insert(j, clone(q[i]))

            return f"copy entry {i} of {where} to {j}", fn
        if r == 2:
            def fn(d):
                q = at(d, path)
                q.insert(min(j, n - 1), q.pop(i))

            return f"move entry {i} of {where} to {j}", fn
        k = s.choice([1, 2, 3, 8, 30, 120])

        def fn(d):
            q = at(d, path)
            q.extend(clone(q[i]) for _ in range(k))

        return f"append {k} copies of entry {i} to {where}", fn
    # props
    props = at(doc, path)
    removable = [k for k in props if k not in G.RESERVED]
    r = s.draw(4)
    if r == 0 and removable:
        k = s.choice(removable)

        def fn(d):
            del at(d, path)[k]

        return f"remove property {k!r} of {where}", fn
    if r == 1 and removable:
        k = s.choice([k for k in removable])
        if k not in G.SECTIONS:
            n = g.name(set(props))

            def fn(d):
                q = at(d, path)
                items = [(n if a == k else a, b) for a, b in q.items()]
                q.clear()
                q.update(items)

            return f"rename property {k!r} of {where} to {n!r}", fn
    n = g.name(set(props))
    g.left += 4
    v = g.prop(4)

    def fn(d):
        at(d, path)[n] = clone(v)

    return f"add property {n!r} to {where}", fn
