"""Builders for the syntax trees and worlds of spec/AvdlElab.tla and spec/Avdl.tla."""
import copy
import re

PRIMS = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
LOGICALS = ["date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"]

# ----------------------------------------------------------------- JSON values
NULL = {"t": "null"}
def Bool(b): return {"t": "bool", "b": bool(b)}
def Int(n, raw=None):
    v = {"t": "int", "s": str(n)}
    if raw is not None:
        v["raw"] = raw
    return v
def Flt(s, raw=None):
    v = {"t": "flt", "s": str(s)}
    if raw is not None:
        v["raw"] = raw
    return v
def Str(s, raw=None):
    v = {"t": "str", "s": s}
    if raw is not None:
        v["raw"] = raw
    return v
def Arr(*a): return {"t": "arr", "a": list(a)}
def Obj(*ps): return {"t": "obj", "o": [{"k": k, "v": v} for k, v in ps]}

def J(x):
    """A Python value as a JSON value of the specification."""
    if x is None:
        return NULL
    if isinstance(x, bool):
        return Bool(x)
    if isinstance(x, int):
        return Int(x)
    if isinstance(x, float):
        return Flt(repr(x))
    if isinstance(x, str):
        return Str(x)
    if isinstance(x, dict):
        if "t" in x and x["t"] in ("null", "bool", "int", "flt", "str", "arr", "obj") and set(x) <= {"t", "b", "s", "a", "o", "raw"}:
            return x
        return {"t": "obj", "o": [{"k": k, "v": J(v)} for k, v in x.items()]}
    return {"t": "arr", "a": [J(v) for v in x]}

# ------------------------------------------------------------------------ types
def prim(n, q=False, annos=()): return {"k": "prim", "n": n, "q": q, "annos": list(annos), "id": 0}
def ref(n, q=False, annos=()): return {"k": "ref", "n": n, "q": q, "annos": list(annos), "id": 0}
def arr(of, annos=()): return {"k": "arr", "of": of, "annos": list(annos), "id": 0}
def mp(of, annos=()): return {"k": "map", "of": of, "annos": list(annos), "id": 0}
def uni(*of, annos=()): return {"k": "uni", "of": list(of), "annos": list(annos), "id": 0}
def void(): return {"k": "void", "id": 0}
def num(s):
    """A numeral, possibly with another spelling: "7" or ("7", "0x7")."""
    if isinstance(s, tuple):
        return {"s": str(s[0]), "raw": s[1], "id": 0}
    return {"s": str(s), "id": 0}
def dec(p, s=None, q=False, annos=()):
    return {"k": "dec", "p": num(p), "s": [] if s is None else [num(s)], "q": q, "annos": list(annos), "id": 0}

# ----------------------------------------------------------------- declarations
def anno(n, v): return {"n": n, "v": J(v), "id": 0}
def var(ident, dflt=None, annos=(), doc=None):
    return {"ident": ident, "dflt": [] if dflt is None else [dflt], "annos": list(annos),
            "doc": [] if doc is None else [doc], "id": 0, "did": 0}
def field(type, *vars, doc=None):
    return {"type": type, "vars": [v if isinstance(v, dict) else var(v) for v in vars],
            "doc": [] if doc is None else [doc]}
def _d(k, ident, annos, doc):
    return {"k": k, "ident": ident, "annos": list(annos), "doc": [] if doc is None else [doc], "id": 0, "nid": 0}
def record(ident, *fields, annos=(), doc=None, k="record"):
    return dict(_d(k, ident, annos, doc), fields=list(fields))
def error(ident, *fields, annos=(), doc=None): return record(ident, *fields, annos=annos, doc=doc, k="error")
def enum(ident, *syms, dflt=None, annos=(), doc=None):
    return dict(_d("enum", ident, annos, doc), syms=[{"s": s, "id": 0} for s in syms],
                dflt=[] if dflt is None else [{"s": dflt, "id": 0}])
def fixed(ident, size, annos=(), doc=None):
    return dict(_d("fixed", ident, annos, doc), size=num(size))
def msg(ident, ret, *params, throws=(), oneway=False, annos=(), doc=None):
    return {"k": "msg", "ident": ident, "ret": ret, "params": list(params), "oneway": oneway,
            "throws": [{"n": n, "id": 0} for n in throws], "annos": list(annos),
            "doc": [] if doc is None else [doc], "id": 0}
def imp(how, path, abs=False):
    return {"k": "import", "how": how, "path": path.split("/") if isinstance(path, str) else list(path),
            "abs": abs, "id": 0}
def orphan(text): return {"k": "orphan", "text": text, "id": 0}

def protocol(ident, *items, annos=(), doc=None):
    return number({"form": "protocol", "ident": ident, "annos": list(annos), "items": list(items),
                   "doc": [] if doc is None else [doc], "id": 0, "nid": 0, "ns": [], "main": void()})
def schema(main, *items, ns=None):
    return number({"form": "schema" if main is not None else "bare", "ident": "", "annos": [], "doc": [],
                   "items": list(items), "id": 0, "nid": 0, "ns": [] if ns is None else [ns],
                   "main": main if main is not None else void()})
def bare(*items, ns=None): return schema(None, *items, ns=ns)

# -------------------------------------------------------------------- numbering
class _Counter:
    def __init__(self):
        self.n = 0
    def __call__(self):
        self.n += 1
        return self.n

def _annos(c, a):
    for x in a:
        x["id"] = c()

def _type(c, t):
    t["id"] = c() if not t.get("annos") else 0
    if t["k"] == "void":
        return
    _annos(c, t["annos"])
    if not t["id"]:
        t["id"] = c()
    if t["k"] == "dec":
        t["p"]["id"] = c()
        for s in t["s"]:
            s["id"] = c()
    elif t["k"] in ("arr", "map"):
        _type(c, t["of"])
    elif t["k"] == "uni":
        for m in t["of"]:
            _type(c, m)

def _field(c, f):
    _type(c, f["type"])
    for v in f["vars"]:
        _annos(c, v["annos"])
        v["id"] = c()
        v["did"] = c() if v["dflt"] else 0

def number(u):
    c = _Counter()
    _annos(c, u["annos"])
    u["id"] = c()
    u["nid"] = c()
    if u["form"] == "schema":
        _type(c, u["main"])
    for it in u["items"]:
        k = it["k"]
        _annos(c, it.get("annos", []))
        it["id"] = c()
        if k == "msg":
            _type(c, it["ret"])
            for p in it["params"]:
                _field(c, p)
            for e in it["throws"]:
                e["id"] = c()
        elif k in ("record", "error"):
            it["nid"] = c()
            for f in it["fields"]:
                _field(c, f)
        elif k == "enum":
            it["nid"] = c()
            for s in it["syms"]:
                s["id"] = c()
            for s in it["dflt"]:
                s["id"] = c()
        elif k == "fixed":
            it["nid"] = c()
            it["size"]["id"] = c()
    return u

# ----------------------------------------------------------------------- worlds
def seg(p): return [s for s in p.split("/") if s != ""] if isinstance(p, str) else list(p)
def idl(path, u, live=True): return {"path": seg(path), "kind": "idl", "u": u, "live": live}
def js(path, j, live=True): return {"path": seg(path), "kind": "json", "j": J(j), "live": live}
def bad(path, text, live=True): return {"path": seg(path), "kind": "bad", "text": text, "live": live}
def link(path, to, live=True, via=None):
    """via: the text of the link, by default the way up to the root and down again."""
    return {"path": seg(path), "kind": "link", "to": seg(to), "live": live, "via": via}
def directory(path, live=True): return {"path": seg(path), "kind": "dir", "live": live}
def source(u): return {"path": ["<input>"], "kind": "idl", "u": u, "live": True, "str": True}

def call_file(path): return {"op": "file", "path": seg(path)}
def call_str(fi): return {"op": "str", "fi": fi}
def call_dir(path): return {"op": "dir", "path": seg(path)}
def drain(): return {"op": "drain"}
def setf(on=(), off=()): return {"op": "set", "on": list(on), "off": list(off)}

def world(id, files, calls, api="idl", dirs=(), **tags):
    return dict({"id": id, "api": api, "dirs": [seg(d) for d in dirs], "files": list(files),
                 "calls": list(calls)}, **tags)
def one(id, u, api="idl", **tags):
    """A world with one file, compiled once."""
    return world(id, [idl("m.avdl", u)], [call_file("m.avdl")], api=api, **tags)

def _strip(x):
    if isinstance(x, dict):
        return {k: _strip(v) for k, v in x.items() if k not in ("raw", "via", "str")}
    if isinstance(x, list):
        return [_strip(v) for v in x]
    return x

EMPTY_U = {"form": "bare", "ident": "", "annos": [], "doc": [], "items": [], "id": 0, "nid": 0, "ns": [],
           "main": {"k": "void", "id": 0}}

def for_tlc(w):
    """The world as the specification wants it."""
    files = []
    for f in w["files"]:
        g = {"path": f["path"], "kind": f["kind"], "live": f["live"],
             "u": f.get("u", EMPTY_U), "j": f.get("j", NULL), "to": f.get("to", [])}
        files.append(_strip(g))
    return {"id": w["id"], "api": w["api"], "dirs": w["dirs"], "files": files,
            "calls": _strip(w["calls"])}
