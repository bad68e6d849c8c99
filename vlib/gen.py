"""Random worlds.  What they mean is for the specification to say: nothing here decides."""
import random

from .ast import *

NSS = ["", "a", "a.b", "c"]
NAMES = ["A", "B", "C", "D", "E", "F"]
CUSTOM = ["x", "y-z", "prop", "logicalType", "precision", "scale", "java-class"]
SCHEMA_RES = ["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases"]


class Gen:
    """knobs: probabilities and sizes; see defaults below."""
    DEFAULTS = dict(
        decls=(1, 5), fields=(0, 4), msgs=(0, 2), depth=2, p_annos=0.15, p_doc=0.2, p_dflt=0.35, p_wrong=0.02,
        p_logical=0.25, p_nsanno=0.25, p_dotted=0.15, p_fault=0.03, p_orphan=0.08, p_logical_anno=0.3,
        files=(1, 1), p_forward=0.4, forms=("protocol", "protocol", "schema", "bare"), p_q=0.2,
        p_undefined=0.03, p_alias=0.15, json_files=0.3, nss=NSS, p_nons=0.0)

    def __init__(self, seed, **knobs):
        self.r = random.Random(seed)
        self.k = dict(self.DEFAULTS, **knobs)
        self.declared = []      # (full, kind) of every type of the world, planned ahead
        self.nowns = ""

    def p(self, name):
        return self.r.random() < self.k[name]

    def n(self, name):
        return self.r.randint(*self.k[name])

    # ------------------------------------------------------------------ values
    def jvalue(self, depth=2):
        r = self.r
        c = r.randint(0, 8 if depth else 5)
        if c == 0:
            return NULL
        if c == 1:
            return Bool(r.random() < .5)
        if c == 2:
            return Int(r.choice([0, 1, -1, 7, 42, 2147483647, 2147483648, -2147483648, -2147483649,
                                 9223372036854775807, -9223372036854775808, 4294967295]))
        if c == 3:
            return Flt(r.choice(["0.5", "1.5", "-2.25", "1e+20", "100.0"]))
        if c in (4, 5):
            return Str(r.choice(["", "s", "A", "B", "null", "x y", "NaN", "a\"b\\c", "tab\there", "\u00e9\u4e2d"]))
        if c == 6:
            return {"t": "arr", "a": [self.jvalue(depth - 1) for _ in range(r.randint(0, 2))]}
        ks = r.sample(["a", "b", "f0", "f1", "type", ""], r.randint(0, 3))
        return {"t": "obj", "o": [{"k": k, "v": self.jvalue(depth - 1)} for k in ks]}

    def default_for(self, t, depth=2):
        """Mostly a value of the type."""
        r = self.r
        if r.random() < 0.12:
            return self.jvalue(1)
        if t.get("q") and r.random() < 0.5:
            return NULL
        k = t["k"]
        if k == "prim":
            n = {"date": "int", "time_ms": "int", "timestamp_ms": "long", "local_timestamp_ms": "long",
                 "uuid": "string"}.get(t["n"], t["n"])
            if n == "null":
                return NULL
            if n == "boolean":
                return Bool(r.random() < .5)
            if n == "int":
                return Int(r.choice([0, 5, -3, 2147483647, -2147483648]))
            if n == "long":
                return Int(r.choice([0, 5, -3, 2147483648, -9223372036854775808]))
            if n in ("float", "double"):
                return r.choice([Int(3), Flt("1.5"), Flt("-0.25"), Str("NaN")])
            return Str(r.choice(["", "s", "\u00e9"]))
        if k == "dec":
            return Str("\u00ff")
        if k == "arr":
            return {"t": "arr", "a": [self.default_for(t["of"], depth - 1) for _ in range(r.randint(0, 2))]}
        if k == "map":
            return {"t": "obj", "o": [{"k": q, "v": self.default_for(t["of"], depth - 1)}
                                      for q in r.sample(["a", "b"], r.randint(0, 2))]}
        if k == "uni":
            if not t["of"]:
                return NULL
            return self.default_for(r.choice(t["of"]), depth - 1)
        if k == "ref":
            return r.choice([Str("A"), Obj(), Obj(("f0", Int(1))), Obj(("f0", Str("A")), ("f1", Int(2)))])
        return NULL

    # ------------------------------------------------------------- annotations
    def custom_annos(self, kind, p=None):
        r = self.r
        out = []
        while r.random() < (self.k["p_annos"] if p is None else p):
            if self.p("p_fault"):
                out.append(anno(r.choice(SCHEMA_RES + ["default", "order", "protocol", "messages", "types", "errors",
                                                       "request", "response", "one-way"]), self.jvalue(1)))
            else:
                n = r.choice(CUSTOM) if kind == "type" else r.choice(CUSTOM[:3] + ["order", "logicalType"])
                if n == "order" and kind == "var":
                    n = "x"
                v = self.jvalue(1)
                if n == "logicalType" and r.random() < .8:
                    v = Str(r.choice(["date", "time-millis", "timestamp-micros", "uuid", "decimal", "duration", "my"]))
                if n in ("precision", "scale") and r.random() < .8:
                    v = Int(r.randint(0, 9))
                out.append(anno(n, v))
        return out

    def aliases(self):
        r = self.r
        n = r.randint(0, 3)
        return anno("aliases", [r.choice(["Old", "a.Old", "a.b.Old2", "c.X", "string", "a.int", "bad name", "9x"]) if
                                r.random() < .3 else r.choice(["Old", "Older", "a.Old", "c.X"]) for _ in range(n)])

    # -------------------------------------------------------------------- types
    def mention(self):
        """A mention of some type in the namespace in force."""
        r = self.r
        if not self.declared or self.p("p_undefined"):
            return r.choice(["Nope", "a.Nope", "c.B2"])
        for _ in range(6):
            full = r.choice(self.declared)
            ns, _, simple = full.rpartition(".")
            if ns == self.nowns:
                return simple if ns == "" or r.random() < .7 else full
            if ns != "":
                return full
        return "Nope" if self.nowns else simple

    def type(self, depth=None, inunion=False):
        r = self.r
        if depth is None:
            depth = self.k["depth"]
        c = r.random()
        q = (not inunion) and self.p("p_q") or self.p("p_fault")
        if depth <= 0 or c < .62:
            annos = self.custom_annos("type", self.k["p_annos"])
            if c < .3 and self.declared:
                return ref(self.mention(), q=q, annos=annos if self.p("p_fault") else [])
            if self.p("p_logical"):
                if r.random() < .35:
                    pr = r.choice([1, 5, 9, 38])
                    sc = r.choice([None, 0, 1, pr])
                    if self.p("p_fault"):
                        pr, sc = r.choice([(0, None), (3, 5), (4294967296, 1), (2, 4294967296), (4294967295, 0)])
                    return dec(pr, sc, q=q, annos=[a for a in annos if a["n"] not in ("logicalType", "precision", "scale")])
                annos = [a for a in annos if a["n"] != "logicalType"]
                return prim(r.choice(LOGICALS), q=q, annos=annos)
            n = r.choice(PRIMS)
            if n == "null" and not self.p("p_fault"):
                q = False
            return prim(n, q=q, annos=annos)
        if c < .75:
            return arr(self.type(depth - 1), annos=self.custom_annos("type"))
        if c < .85:
            return mp(self.type(depth - 1), annos=self.custom_annos("type"))
        ms = []
        keys = set()
        for _ in range(r.randint(1, 4)):
            m = self.type(depth - 1, inunion=True)
            base = {"date": "int", "time_ms": "int", "timestamp_ms": "long", "local_timestamp_ms": "long",
                    "uuid": "string"}
            key = m["k"] if m["k"] != "prim" else base.get(m["n"], m["n"])
            if m["k"] == "dec":
                key = "bytes"
            if m["k"] == "ref":
                key = m["n"].split(".")[-1]
            if (key in keys or m["k"] == "uni") and not self.p("p_fault"):
                continue
            keys.add(key)
            ms.append(m)
        if not ms:
            ms.append(prim("null"))
        return uni(*ms, annos=self.custom_annos("type", 0.1))

    def fields(self, n, param=False):
        r = self.r
        out = []
        names = ["f%d" % i for i in range(n + 1)]
        i = 0
        while i < n:
            t = self.type()
            vs = []
            for _ in range(1 if param or r.random() < .8 else 2):
                if i >= n:
                    break
                ident = names[i] if not self.p("p_fault") else names[0]
                i += 1
                annos = self.custom_annos("var")
                if self.p("p_alias"):
                    annos.append(anno("aliases", [r.choice(["old", "older", "a.b", "bad name"]) for _ in range(r.randint(0, 2))]))
                if r.random() < self.k["p_annos"]:
                    o = r.choice(["ascending", "descending", "ignore", "DESCENDING", "Ignore"])
                    annos.append(anno("order", "up" if self.p("p_fault") else o))
                vs.append(var(ident, self.default_for(t) if self.p("p_dflt") else None, annos=annos,
                              doc=self.doc()))
            out.append(field(t, *vs, doc=self.doc()))
        return out

    def doc(self):
        return self.r.choice(["doc", "some \u00e9 text", "a \"quoted\" word", "x"]) if self.p("p_doc") else None

    # ------------------------------------------------------------- declarations
    def plan(self, ns):
        """Identifier and @namespace of a declaration, and its full name."""
        r = self.r
        s = r.choice(NAMES)
        if self.p("p_fault"):
            s = r.choice(["string", "date", "null", "decimal", "record", "x-y", "a-b", "int"])
        if self.p("p_dotted"):
            n = r.choice(self.k["nss"][1:])
            return n + "." + s, [], n + "." + s
        if self.p("p_nsanno"):
            n = r.choice(self.k["nss"])
            return s, [anno("namespace", n if not self.p("p_fault") else self.jvalue(1))], (n + "." if n else "") + s
        return s, [], (ns + "." if ns else "") + s

    def body(self, plan):
        r = self.r
        kind, ident, annos, full, doc = plan
        annos = annos + self.custom_annos("named")
        if self.p("p_alias"):
            annos.append(self.aliases())
        r.shuffle(annos)
        if kind == "enum":
            syms = r.sample(["A", "B", "C", "string", "_x"], r.randint(1, 3))
            if self.p("p_fault"):
                syms.append(syms[0])
            d = r.choice(syms + (["Z"] if self.p("p_fault") else [])) if r.random() < .4 else None
            return enum(ident, *syms, dflt=d, annos=annos, doc=doc)
        if kind == "fixed":
            return fixed(ident, r.choice([1, 16, 4294967295]) if not self.p("p_fault") else 4294967296,
                         annos=annos, doc=doc)
        save = self.nowns
        self.nowns = full.rpartition(".")[0]
        try:
            return record(ident, *self.fields(self.n("fields")), annos=annos, doc=doc, k=kind)
        finally:
            self.nowns = save

    def message(self, name, ns):
        r = self.r
        self.nowns = ns
        ret = void() if r.random() < .3 else self.type()
        if ret["k"] != "void":
            ret["annos"] = []       # those would be the message's
        one = ret["k"] == "void" and r.random() < .3 or self.p("p_fault")
        errs = [] if one or r.random() < .6 or not self.declared else [self.mention() for _ in range(r.randint(1, 2))]
        annos = [] if ret["k"] == "ref" and not self.p("p_fault") else self.custom_annos("msg")
        return msg(name, ret, *self.fields(r.randint(0, 2), param=True), throws=errs, oneway=one, annos=annos,
                   doc=self.doc())

    # ------------------------------------------------------------- JSON schemas
    def jtype(self, depth, ns, budget):
        r = self.r
        c = r.random()
        if depth <= 0 or c < .45:
            o = r.random()
            if o < .35 and budget["seen"]:
                full = r.choice(budget["seen"])
                n, _, s = full.rpartition(".")
                return s if n == ns and r.random() < .6 else (full if n or not ns else "string")
            n = r.choice(PRIMS)
            if r.random() < .6:
                return n
            d = {"type": n}
            if r.random() < .5:
                d["logicalType"] = r.choice(["date", "time-millis", "timestamp-millis", "uuid", "decimal",
                                             "timestamp-micros", "duration", "my"])
            if r.random() < .4:
                d["precision"] = r.choice([1, 4, 9])
            if r.random() < .3:
                d["scale"] = r.choice([0, 1, 2])
            if r.random() < .3:
                d["custom"] = r.choice([1, "x", [1], {"k": None}])
            return d
        if c < .55:
            return {"type": "array", "items": self.jtype(depth - 1, ns, budget), **({"x": 1} if r.random() < .2 else {})}
        if c < .65:
            return {"type": "map", "values": self.jtype(depth - 1, ns, budget), **({"x": "y"} if r.random() < .2 else {})}
        if c < .75:
            seen, out = set(), []
            for _ in range(r.randint(0, 3)):
                t = self.jtype(depth - 1, ns, budget)
                k = t if isinstance(t, str) else (t["type"] if isinstance(t, dict) and "name" not in t else None)
                if isinstance(t, list) or (k is not None and k in seen):
                    continue
                seen.add(k)
                out.append(t)
            return out
        return self.jnamed(depth, ns, budget)

    def jnamed(self, depth, ns, budget):
        r = self.r
        s = r.choice(budget["names"])
        d = {"type": r.choice(["record", "record", "error", "enum", "fixed"])}
        if r.random() < .2:
            n = r.choice(["a", "a.b", "j"])
            d["name"] = n + "." + s
            if r.random() < .2:
                d["namespace"] = n
        elif r.random() < .4:
            n = r.choice(["", "a", "j"])
            d["name"] = s
            d["namespace"] = n
        else:
            n = ns
            d["name"] = s
        full = (n + "." if n else "") + s
        if full in budget["seen"] and r.random() < .9:
            return "string"
        budget["seen"].append(full)
        budget["all"].append(full)
        if r.random() < .3:
            d["doc"] = "jdoc"
        if r.random() < .3:
            d["aliases"] = r.choice([[], ["Old"], ["j.Old", "Old2"]])
        if r.random() < .3:
            d["custom"] = r.choice([1, "x", [1], {"k": None}])
        if d["type"] in ("record", "error"):
            fs = []
            for i in range(r.randint(0, 3)):
                f = {"name": "f%d" % i, "type": self.jtype(depth - 1, n, budget)}
                if r.random() < .2:
                    f["doc"] = "fd"
                if r.random() < .2:
                    f["order"] = r.choice(["ascending", "descending", "ignore"])
                if r.random() < .2:
                    f["aliases"] = ["g%d" % i]
                if r.random() < .2:
                    f["p"] = [True]
                if r.random() < .2 and isinstance(f["type"], str) and f["type"] in ("int", "long"):
                    f["default"] = 3
                fs.append(f)
            d["fields"] = fs
        elif d["type"] == "enum":
            d["symbols"] = r.sample(["A", "B", "C"], r.randint(1, 3))
            if r.random() < .4:
                d["default"] = d["symbols"][0]
        else:
            d["size"] = r.choice([1, 16])
            if r.random() < .2:
                d["logicalType"] = r.choice(["decimal", "duration"])
                d["precision"] = 2
        items = list(d.items())
        r.shuffle(items)
        return dict(items)

    def jbudget(self):
        return {"names": ["J", "K", "L", "A", "M"], "seen": [], "all": []}

    def jschema(self):
        b = self.jbudget()
        j = self.jtype(3, "", b) if self.r.random() < .3 else self.jnamed(3, "", b)
        self.declared += b["all"]
        return j

    def jprotocol(self, mnames):
        r = self.r
        b = self.jbudget()
        ns = r.choice(["", "a", "j"])
        d = {"protocol": "JP"}
        if ns and r.random() < .3:
            d["protocol"] = ns + ".JP"
        elif ns:
            d["namespace"] = ns
        d["types"] = [self.jnamed(2, ns, b) for _ in range(r.randint(0, 3))]
        d["types"] = [t for t in d["types"] if t != "string"]
        ms = {}
        for m in r.sample(mnames, r.randint(0, 2)):
            q = {"request": [{"name": "p%d" % i, "type": self.jtype(1, ns, b)} for i in range(r.randint(0, 2))],
                 "response": self.jtype(1, ns, b)}
            if r.random() < .3:
                q["doc"] = "md"
            if r.random() < .3:
                q["x"] = 1
            if r.random() < .15:
                q["response"], q["one-way"] = "null", True
            elif r.random() < .3 and b["seen"]:
                full = r.choice(b["seen"])
                n = full.rpartition(".")[0]
                if n or not ns:
                    q["errors"] = [full]
            ms[m] = q
        if ms or r.random() < .5:
            d["messages"] = ms
        self.declared += b["all"]
        return d

    # ------------------------------------------------------------------- worlds
    def unit(self, form, ns, plans, imports, mnames, main_ok=True):
        r = self.r
        items = []
        todo = [("i", x) for x in imports] + [("d", x) for x in plans]
        r.shuffle(todo)
        pending_orphan = False
        for kind, x in todo:
            if self.p("p_orphan"):
                items.append(orphan(r.choice(["lost", "found"])))
            if kind == "i":
                items.append(x)
            else:
                self.nowns = ns
                items.append(self.body(x))
        if form == "protocol":
            ms = [self.message(m, ns) for m in r.sample(mnames, min(len(mnames), self.n("msgs")))]
            for m in ms:
                items.insert(r.randint(0, len(items)), m)
        # a comment directly after another one has no defined place to go
        items = [it for i, it in enumerate(items)
                 if not (it["k"] == "orphan" and i + 1 < len(items) and items[i + 1]["k"] == "orphan")]
        if form == "protocol":
            ident, annos = "P", []
            if ns:
                if r.random() < .3:
                    ident = ns + ".P"
                else:
                    annos = [anno("namespace", ns)]
            elif r.random() < .1:
                annos = [anno("namespace", "")]
            annos += self.custom_annos("proto")
            return protocol(ident, *items, annos=annos, doc=self.doc())
        n = ns if ns else None
        if form == "schema":
            self.nowns = ns
            t = self.type()
            # a comment before the first declaration would stand before `schema`
            return schema(t, *items, ns=n)
        while items and items[0]["k"] == "orphan" and n is not None and False:
            items.pop(0)
        return bare(*items, ns=n)

    def planned(self, ns):
        r = self.r
        out = []
        used = set(self.declared)
        for _ in range(self.n("decls")):
            ident, annos, full = self.plan(ns)
            if full in used and not self.p("p_fault"):
                continue
            used.add(full)
            kind = r.choice(["record", "record", "record", "error", "enum", "fixed"])
            out.append((kind, ident, annos, full, self.doc()))
            self.declared.append(full)
        return out

    def world(self, id, api=None):
        r = self.r
        nf = self.n("files")
        mnames = ["m0", "m1", "m2", "m3"]
        files = []
        paths = ["m.avdl"] + ["d%d/i%d.avdl" % (i % 2, i) for i in range(1, nf)]
        js_files = []
        if nf > 1:
            for i in range(2):
                if self.p("json_files"):
                    js_files.append(("schema" if r.random() < .6 else "protocol", "d%d/j%d.json" % (i, i)))
        forms = [r.choice(self.k["forms"]) for _ in range(nf)]
        nss = [r.choice(self.k["nss"]) for _ in range(nf)]
        jmade = []
        for how, path in js_files:
            j = self.jschema() if how == "schema" else self.jprotocol(mnames)
            jmade.append((how, path, j))
        plans = [self.planned(nss[i]) for i in range(nf)]
        targets = [("idl", p) for p in paths] + [(h, p) for h, p, _ in jmade]
        order = []
        for i in range(nf):
            imports = []
            here = paths[i].rpartition("/")[0]
            for how, t in targets:
                if r.random() < (.75 if i == 0 else .35):
                    rel = t
                    if here:
                        rel = t[len(here) + 1:] if t.startswith(here + "/") else "../" + t
                    if r.random() < .15:
                        rel = "./" + rel
                    imports.append(imp(how, rel.split("/")))
            order.append(imports)
        # message mentions of a file that is imported where messages do not count stay unspecified
        for i in range(nf):
            files.append(idl(paths[i], self.unit(forms[i], nss[i], plans[i], order[i], mnames)))
        for how, path, j in jmade:
            files.append(js(path, j))
        if api is None:
            api = "schemata" if forms[0] == "bare" and r.random() < .85 or r.random() < .25 else "idl"
        calls = [call_file("m.avdl"), drain()]
        return world(id, files, calls, api=api)
