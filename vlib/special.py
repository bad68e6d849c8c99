"""Families that start from what the code did: importing its own output again, running
everything several times, and so on."""
import json

from . import ast, batch, conform, gen, runner
from .ast import *


def _get(j, k):
    for p in j["o"]:
        if p["k"] == k:
            return p["v"]
    return None


STRUCT = {"protocol", "namespace", "doc", "types", "messages"}


def _names(j, ns=""):
    """Full names a JSON schema defines (to leave out what the format cannot say)."""
    out = []
    if j["t"] == "arr":
        for x in j["a"]:
            out += _names(x, ns)
    elif j["t"] == "obj":
        t = _get(j, "type")
        if t is None:
            return out
        if t["t"] == "str" and t["s"] in ("record", "error", "enum", "fixed"):
            n, s = _get(j, "name")["s"], _get(j, "namespace")
            full = n if "." in n else ((s["s"] if s else ns) + "." + n).lstrip(".")
            out.append(full)
            for f in (_get(j, "fields") or {"a": []})["a"]:
                out += _names(_get(f, "type"), full.rpartition(".")[0])
        elif t["t"] == "str" and t["s"] in ("array", "map"):
            out += _names(_get(j, "items" if t["s"] == "array" else "values"), ns)
    return out


def wrapper(id, doc):
    """A protocol of the same name, namespace, documentation and annotations that imports doc."""
    ns, d = _get(doc, "namespace"), _get(doc, "doc")
    annos = ([anno("namespace", ns["s"])] if ns else []) + \
        [anno(p["k"], p["v"]) for p in doc["o"] if p["k"] not in STRUCT]
    u = protocol(_get(doc, "protocol")["s"], imp("protocol", "d.avpr"), annos=annos, doc=d["s"] if d else None)
    return world(id, [idl("m.avdl", u), js("d.avpr", doc)], [call_file("m.avdl")])


def _failed(c, family, p, r, doc):
    if (c.pid, p.world["id"]) in c.findings:
        c.known[p.world["id"]] = c.findings[(c.pid, p.world["id"])]
        return
    c.violation(family, "what was emitted cannot be imported again: " + str(r.get("crash") or r["results"][-1].get("err"))[:300],
                _payload(c, family, p, r, {"expected": doc, "observed": "rejected"}, "status"))


def reimport(c, family, kept, what, every=False):
    """Documents the code has emitted, imported again: twice the same types and messages."""
    ws, docs = [], {}
    skipped = 0
    for p, r in kept:
        if p.world["api"] != "idl" or "crash" in r:
            continue
        for ci, call in enumerate(p.world["calls"]):
            got = r["results"][p.opidx[ci]]
            if call["op"] not in ("file", "str") or not got.get("ok") or "text" not in got:
                continue
            doc = conform.to_jv(got["text"])
            if doc["t"] != "obj" or _get(doc, "protocol") is None:
                continue
            ns = _get(doc, "namespace")
            ns = ns["s"] if ns else ""
            names = [n for t in _get(doc, "types")["a"] for n in _names(t, ns)]
            if not every and ns and any("." not in n for n in names):
                skipped += 1        # such a name cannot be mentioned in messages
                continue
            id = "%s-%d" % (family, len(ws))
            ws.append(wrapper(id, doc))
            docs[id] = doc
    keep = []
    c.worlds(family, ws, what=what, keep=keep, kind="documents emitted by the code, imported again")
    from .core import judge, tidy
    cases, by = [], {}
    for p, r in keep:
        got = r.get("results", [{}])[-1]
        if got.get("ok"):
            new = conform.to_jv(got["text"])
            if conform.canon(new) != conform.canon(docs[p.world["id"]]):
                by[len(cases)] = (p, r, new)
                cases.append({"id": len(cases), "prop": "C12", "form": "protocol",
                              "exp": tidy(docs[p.world["id"]]), "obs": tidy(new)})
        else:
            _failed(c, family, p, r, docs[p.world["id"]])
    _verdicts(c, family, cases, by, docs)
    return len(ws), skipped


def reextract(c, family, kept, what):
    """Schemas the code has extracted, imported again and extracted again."""
    ws, docs = [], {}
    for p, r in kept:
        if p.world["api"] != "schemata" or "crash" in r:
            continue
        for ci, call in enumerate(p.world["calls"]):
            got = r["results"][p.opidx[ci]]
            if call["op"] not in ("file", "str") or not got.get("ok"):
                continue
            for n, t in got["schemas"]:
                j = conform.to_jv(t)
                if any("." not in x for x in _names(j)) and any("." in x for x in _names(j)):
                    continue
                id = "%s-%d" % (family, len(ws))
                docs[id] = (n, j)
                ws.append(world(id, [idl("m.avdl", bare(imp("schema", "s.avsc"))), js("s.avsc", j)],
                                [call_file("m.avdl")], api="schemata"))
    keep = []
    c.worlds(family, ws, what=what, keep=keep, kind="schemas extracted by the code, imported and extracted again")
    from .core import tidy
    cases, by = [], {}
    want = {}
    for p, r in keep:
        got = r.get("results", [{}])[-1]
        n, j = docs[p.world["id"]]
        if not got.get("ok"):
            _failed(c, family, p, r, j)
            continue
        full = _names(j)[0]
        again = [conform.to_jv(t) for _, t in got["schemas"]]
        mine = [x for x in again if _names(x)[:1] == [full]]
        if len(mine) != 1:
            c.violation(family, "extracting %s again gives %d schemas of that name" % (full, len(mine)),
                        _payload(c, family, p, r, {"expected": j, "observed": again}))
        elif conform.canon(mine[0]) != conform.canon(j):
            want[p.world["id"]] = j
            by[len(cases)] = (p, r, mine[0])
            cases.append({"id": len(cases), "prop": "C12", "form": "schema", "exp": tidy(j), "obs": tidy(mine[0])})
    _verdicts(c, family, cases, by, want)
    return len(ws)


def _payload(c, family, p, r, detail, what="doc"):
    return {"property": c.pid, "family": family, "what": what, "detail": detail, "call": 0,
            "layout": list(getattr(p, "layout", ("plain", 0))), "world": p.world, "job": p.job, "result": r}


def _verdicts(c, family, cases, by, docs):
    if not cases:
        return
    from .core import judge
    for k, v in judge(cases).items():
        if v != "same":
            p, r, new = by[k]
            if (c.pid, p.world["id"]) in c.findings:
                c.known[p.world["id"]] = c.findings[(c.pid, p.world["id"])]
                continue
            c.violation(family, "importing the document again changes it: " + v,
                        _payload(c, family, p, r, {"expected": docs[p.world["id"]], "observed": new, "verdict": v}))


# ------------------------------------------------------------------ determinism
def _norm(x, root):
    if isinstance(x, str):
        return x.replace(root, "@")
    if isinstance(x, list):
        return [_norm(y, root) for y in x]
    if isinstance(x, dict):
        return {k: _norm(v, root) for k, v in x.items() if k != "ms"}
    return x


def repeat(c, family, kept, times):
    """The same jobs in other processes: everything the same, byte for byte."""
    jobs = [dict(p.job, id=i) for i, (p, r) in enumerate(kept)]
    base = [_norm(r.get("results"), r.get("root", "")) for p, r in kept]
    n = 0
    for t in range(times):
        # each time in another order, so that every process has another past
        order = list(range(len(jobs)))
        import random
        random.Random(t).shuffle(order)
        # and the files are made in another order, which the file system may remember
        rs = runner.run_jobs([dict(jobs[i], files=jobs[i]["files"][::-1 if t % 2 == 0 else 1]) for i in order])
        for i, r in zip(order, rs):
            n += 1
            got = _norm(r.get("results"), r.get("root", ""))
            if got != base[i]:
                p = kept[i][0]
                c.violation(family, "another run gives another result",
                            _payload(c, family, p, r, {"expected": base[i], "observed": got}, "doc"))
                base[i] = got
    c.traces += n
    return n
