"""Replay worlds in the real code and compare what comes back with what the specification says."""
import json
import os
import re

from . import render


# ------------------------------------------------------------- observed JSON
class _N(str):
    pass


def to_jv(text):
    def pairs(ps):
        return ("obj", ps)
    v = json.loads(text, object_pairs_hook=pairs, parse_int=lambda s: ("int", s),
                   parse_float=lambda s: ("flt", s), parse_constant=lambda s: ("flt", s))

    def conv(x):
        if x is None:
            return {"t": "null"}
        if isinstance(x, bool):
            return {"t": "bool", "b": x}
        if isinstance(x, str):
            return {"t": "str", "s": x}
        if isinstance(x, list):
            return {"t": "arr", "a": [conv(y) for y in x]}
        kind, val = x
        if kind == "obj":
            return {"t": "obj", "o": [{"k": k, "v": conv(y)} for k, y in val]}
        return {"t": kind, "s": val}
    return conv(v)


def canon(v):
    """Comparable form of a JSON value: object order and spelling of floats do not matter."""
    t = v["t"]
    if t == "null":
        return "null"
    if t == "bool":
        return ("b", v["b"])
    if t == "int":
        return ("i", v["s"])
    if t == "flt":
        return ("f", float(v["s"]))
    if t == "str":
        return ("s", v["s"])
    if t == "arr":
        return ("a",) + tuple(canon(x) for x in v["a"])
    d = {}
    for p in v["o"]:
        d[p["k"]] = canon(p["v"])
    if d.get("logicalType") == ("s", "decimal") and d.get("scale") == ("i", "0"):
        del d["scale"]          # what its absence means
    return ("o",) + tuple(sorted(d.items()))


# -------------------------------------------------------------------- a job
class Prepared:
    """A world turned into files, with the byte offsets of its nodes."""


def _linktext(f):
    if f.get("via") is not None:
        return f["via"]
    return "../" * (len(f["path"]) - 1) + ("/".join(f["to"]) or ".")


class CharSpans:
    """Offsets where numbers of constructs are 1000 * core token + first token, or 10^7 + a character."""

    def __init__(self, text, offs):
        n, at = 0, [0]
        for x in text:
            n += len(x.encode("utf-8"))
            at.append(n)
        self.chars, self.at = at, {i + 1: at[o - 1] for i, o in enumerate(offs)}
        end = text.find("\x1a")
        self.at[len(offs) + 1] = at[end if end >= 0 else len(text)]

    def get(self, key):
        i, at = key
        if i > 10000000:
            return self.chars[i - 10000000 - 1]
        return self.at.get(i % 1000 if at == "s" else i // 1000)


class WordSpans:
    """Offsets where numbers of constructs are 1000 * core word + first word."""

    def __init__(self, words):
        self.at, n = {}, 0
        for i, x in enumerate(words):
            self.at[i + 1] = n
            n += len(x.encode("utf-8")) + 1
        self.at[len(words) + 1] = max(n - 1, 0)

    def get(self, key):
        i, at = key
        return self.at.get(i % 1000 if at == "s" else i // 1000)


def _part(x):
    if "#" not in x["s"]:
        return x["s"] * x["n"]
    return "".join(x["s"].replace("#i", str(i)).replace("#j", str(max(i - 1, 0))).replace("#k", str(i + 1)) for i in range(x["n"]))


def prepare(w, style="plain", seed=0, jid=None):
    p = Prepared()
    rend = {"render": True} if w.get("render") else {}
    p.world = w
    p.texts, p.spans, p.holes = [], [], []
    for i, f in enumerate(w["files"]):
        spans = {}
        if "offs" in f:
            text = f["text"]
            spans = CharSpans(text, f["offs"])
        elif "words" in f:
            text = " ".join(f["words"])
            spans = WordSpans(f["words"])
        elif "toks" in f:
            text = ""
            for t in f["toks"]:
                if t["id"]:
                    spans[(t["id"], "c")] = len(text.encode("utf-8"))
                text += t["s"]
        elif f["kind"] == "idl":
            r = render.Renderer(render.Layout(style, seed * 31 + i))
            text = r.unit(f["u"])
            spans = r.spans
        elif f["kind"] == "json" and "text" in f:
            text = f["text"]
        elif f["kind"] == "json":
            import random
            text = render.render_json(f["j"], random.Random(seed * 31 + i) if style == "noise" else None)
        elif "parts" in f:
            text = "".join(_part(x) for x in f["parts"])
        else:
            text = f.get("text", "")
        p.texts.append(text)
        p.spans.append(spans)
        b = text.encode("utf-8")
        p.holes.append([m.start() for m in re.finditer(b"@ROOT@", b)])
    files = []
    for i, f in enumerate(w["files"]):
        if not f["live"] or f.get("str"):
            continue
        path = "/".join(f["path"])
        if f["kind"] == "link":
            files.append({"path": path, "link": _linktext(f)})
        elif f["kind"] == "dir":
            files.append({"path": path, "dir": True})
        elif f["kind"] == "raw":
            files.append({"path": path, "hex": f["text"]})
        else:
            files.append({"path": path, "text": p.texts[i]})
    absd = {"abs": True} if seed & 1 else {}       # import directories given by absolute path
    absf = {"abs": True} if seed & 2 else {}       # and files to compile
    ops = [dict({"op": "dir", "path": "/".join(d) or "."}, **absd) for d in w["dirs"]]
    p.skip = len(ops)
    p.opidx = []       # result index of each call
    there = {i + 1 for i, f in enumerate(w["files"]) if f["live"]}
    for c in w["calls"]:
        if c["op"] == "file" or c["op"] == "dir":
            ops.append(dict({"op": "file", "path": "/".join(c["path"]) or "."}, **absf, **rend))
        elif c["op"] == "str":
            ops.append({"op": "str", "src": p.texts[c["fi"] - 1]})
        elif c["op"] == "drain":
            ops.append({"op": "drain"})
        elif c["op"] == "add":
            ops.append(dict({"op": "dir", "path": "/".join(c["path"]) or "."}, **absd))
        else:
            for k in c["off"]:
                if k in there:
                    ops.append({"op": "write", "path": "/".join(w["files"][k - 1]["path"])})
            there = there - set(c["off"]) | set(c["on"])
            for k in c["on"]:
                ops.append({"op": "write", "path": "/".join(w["files"][k - 1]["path"]), "text": p.texts[k - 1]})
        p.opidx.append(len(ops) - 1)
    p.job = {"id": jid if jid is not None else w["id"], "api": w["api"], "files": files, "ops": ops}
    return p


def _real(w, path):
    """The file a path leads to, following links (lexically simple)."""
    for _ in range(8):
        done = True
        cur = []
        for k, s in enumerate(path):
            if s == ".":
                continue
            if s == "..":
                cur = cur[:-1]
                continue
            cur = cur + [s]
            l = [f for f in w["files"] if f["kind"] == "link" and f["path"] == cur]
            if l:
                path = l[0]["to"] + path[k + 1:]
                done = False
                break
        if done:
            return cur
    return path


def file_index(p, name, call, root):
    w = p.world
    if name is None:
        return 0
    if call["op"] == "str" and name in ("<input>",):
        return call["fi"]
    if os.path.isabs(name):
        if name == root or not name.startswith(root + "/"):
            return 0
        name = name[len(root) + 1:]
    path = _real(w, [s for s in name.split("/") if s])
    c = [i for i, f in enumerate(w["files"]) if f["path"] == path and not f.get("str")]
    now = [i for i in c if i + 1 in p.live]
    return (now or c)[0] + 1 if c else 0


def offset_of(p, fi, nid, at, root):
    sp = p.spans[fi - 1]
    o = sp.get((nid, at))
    if o is None:
        o = sp.get((nid, "c"))
    if o is None:
        return None
    d = len(root.encode()) - len("@ROOT@")
    return o + d * sum(1 for h in p.holes[fi - 1] if h < o)


def _diags(d):
    out = [d]
    for r in d.get("related", []):
        out += _diags(r)
    return out


def _place(p, d, call, root):
    if not d["labels"]:
        return None
    l = d["labels"][0]
    return (file_index(p, l["src"], call, root), l["off"])


class Diff:
    def __init__(self, world, call, what, detail):
        self.world, self.call, self.what, self.detail = world, call, what, detail

    def __repr__(self):
        return "%s call %s: %s: %s" % (self.world["id"], self.call, self.what, self.detail)


def compare(p, outs, result):
    """Differences between the outcomes of the specification and of the code.
    what: "crash", "status", "doc", "place", "undefined", "warnings" """
    w = p.world
    diffs = []
    if "crash" in result:
        return [Diff(w, 0, "crash", result["crash"])]
    root = result["root"]
    unspecified = False
    p.live = {i + 1 for i, f in enumerate(w["files"]) if f["live"]}
    warned = p.live         # which files there were at the last call
    for ci, (c, exp) in enumerate(zip(w["calls"], outs)):
        got = result["results"][p.opidx[ci]]
        if c["op"] == "set":
            p.live = p.live - set(c["off"]) | set(c["on"])
            continue
        if c["op"] == "add":
            continue
        if "panic" in got:
            diffs.append(Diff(w, ci, "crash", got["panic"]))
            continue
        if c["op"] == "drain":
            if not unspecified:
                now, p.live = p.live, warned
                diffs += _warns(p, ci, c, exp["warns"], got["warnings"], root, prev=_last_call(w, ci))
                p.live = now
            continue
        warned = p.live
        diffs += _labels(p, ci, got)
        unspecified = bool(exp.get("open"))
        if unspecified:
            if got["ok"] and not got["warnings"] and any(f.get("noted") and f["live"] for f in w["files"]):
                diffs.append(Diff(w, ci, "status", {"expected": "an error or a warning", "observed": "success, and no warning"}))
            elif got["ok"] or got["err"]:
                diffs += _broken(p, ci, c, got, root)
            if not got["ok"] and any(f.get("passes") and f["live"] for f in w["files"]):
                diffs.append(Diff(w, ci, "status", {"expected": "success", "observed": "failure: %s" % got["err"]["chain"]}))
            continue
        if got["ok"] != exp["ok"]:
            diffs.append(Diff(w, ci, "status", {
                "expected": "success" if exp["ok"] else "failure: %s" % [e["rule"] for e in exp["errs"]] + str([u["name"] for u in exp["und"]]),
                "observed": "success" if got["ok"] else "failure: %s" % got["err"]["chain"]}))
            continue
        if exp["ok"]:
            new = _docs(p, ci, exp, got)
            for d in new:
                d.form = exp["form"]
            diffs += new
            diffs += _warns(p, ci, c, exp["warns"], got["warnings"], root)
        else:
            diffs += _error(p, ci, c, exp, got["err"], root)
    return diffs


def _labels(p, ci, got):
    """Every place that a report or a warning shows lies in the text that it names."""
    ds = [x for d in ([] if got["ok"] else [got["err"]]) + got.get("warnings", []) for x in _diags(d)] if got.get("ok") or got.get("err") else []
    bad = [(d["chain"], l) for d in ds for l in d["labels"]
           if l["src"] is None]
    return [Diff(p.world, ci, "label", {"problem": "a place that is not in the source", "observed": bad[:3]})] if bad else []


def _last_call(w, ci):
    for k in range(ci - 1, -1, -1):
        if w["calls"][k]["op"] in ("file", "str", "dir"):
            return w["calls"][k]
    return {"op": "none"}


def _docs(p, ci, exp, got):
    w = p.world
    if w["api"] == "idl":
        o = to_jv(got["text"])
        if canon(o) != canon(exp["out"]):
            return [Diff(w, ci, "doc", {"expected": exp["out"], "observed": o})]
        return []
    obs = [{"name": n, "j": to_jv(t)} for n, t in got["schemas"]]
    if [(x["name"], canon(x["j"])) for x in obs] != [(x["name"], canon(x["j"])) for x in exp["out"]]:
        return [Diff(w, ci, "doc", {"expected": exp["out"], "observed": obs})]
    return []


def _warns(p, ci, c, exp, got, root, prev=None):
    call = prev or c
    e = []
    for x in exp:
        e.append((x["f"], offset_of(p, x["f"], x["id"], x["at"], root)))
    g = []
    for d in got:
        g.append(_place(p, d, call, root))
    key = lambda x: (x is None, x)
    if sorted(e, key=key) != sorted(g, key=key):
        return [Diff(p.world, ci, "warnings", {
            "expected": [(x["f"], x["kind"], o) for x, (_, o) in zip(exp, e)],
            "observed": [(pl, d["chain"]) for pl, d in zip(g, got)]})]
    return []


def _unclosed(text):
    st = []
    for i, b in enumerate(text):
        if b == 0x7b:
            st.append(i)
        elif b == 0x7d and st:
            st.pop()
    return st


def _breaks(p, f, off, n):
    """Whether a text that breaks the grammar at its n-th token may be said to break it at an
    offset: there, at an earlier token that explains it, or at a brace that nothing closes."""
    at, text = p.spans[f - 1].at, p.texts[f - 1].encode("utf-8")
    while text[off:off + 1] in (b" ", b"\t", b"\n", b"\r", b"\f") and off < len(text):
        off += 1
    return (off in [at[k] for k in range(1, n + 1)]
            or off in _unclosed(text))


def _broken(p, ci, c, got, root):
    """A text with characters that begin no lexeme: the first of them is warned of, and a
    string that does not end is not blamed on what comes after it."""
    for i, f in enumerate(p.world["files"]):
        if not (f.get("broken") and f["live"] and i + 1 in p.live):
            continue
        text = p.texts[i]
        at = len(text[:f["broken"] - 1].encode("utf-8"))
        if got["ok"]:
            pls = [_place(p, d, c, root) for d in got["warnings"]]
            if (i + 1, at) not in pls:
                return [Diff(p.world, ci, "warnings", {"expected": [(i + 1, "unrecognized", at)], "observed": pls})]
        else:
            pl = _place(p, got["err"], c, root)
            if pl is not None and pl[0] == i + 1 and text[f["broken"] - 1] == '"' and "unterminated" in str(got["err"]["chain"]) and pl[1] != at:
                return [Diff(p.world, ci, "place", {"expected": (i + 1, at), "observed": pl, "error": got["err"]["chain"]})]
    return []


def _error(p, ci, c, exp, err, root):
    w = p.world
    if exp["und"]:
        return _undefined(p, ci, c, exp, err, root)
    pl = _place(p, err, c, root)
    for e in exp["errs"]:
        if e["f"] == 0:
            return []
        if pl is None:
            continue
        if e["at"] == "any":
            if pl[0] == e["f"] and 0 <= pl[1] <= len(p.texts[e["f"] - 1].encode()) + 4096:
                return []
        elif e["at"] == "upto":
            if pl[0] == e["f"] and _breaks(p, e["f"], pl[1], e["id"] // 1000):
                return []
        elif e["at"] == "start":
            if pl == (e["f"], 0):
                return []
        elif pl == (e["f"], offset_of(p, e["f"], e["id"], e["at"], root)):
            return []
    return [Diff(w, ci, "place", {
        "expected": [(e["f"], offset_of(p, e["f"], e["id"], e["at"], root) if e["id"] else e["at"], e["rule"])
                     for e in exp["errs"]],
        "observed": pl, "error": err["chain"]})]


def _tokens(s):
    return re.findall(r"[A-Za-z0-9_.-]+", s)


def _undefined(p, ci, c, exp, err, root):
    w = p.world
    ds = _diags(err)
    names = {u["name"]: u for u in exp["und"]}
    seen = {}
    for d in ds:
        toks = [t.strip(".") if t.endswith(".") else t for m in d["chain"] for t in _tokens(m)]
        for t in toks:
            if t in names:
                seen.setdefault(t, []).append(d)
    probs = []
    if "" in names:
        return []           # not a name at all: rejecting it is enough
    for n, u in names.items():
        hits = seen.get(n, [])
        if len(hits) != 1:
            probs.append("%s reported %d times" % (n, len(hits)))
            continue
        if u["locs"]:
            pl = _place(p, hits[0], c, root)
            ok = [(l["f"], offset_of(p, l["f"], l["id"], "c", root)) for l in u["locs"]]
            if pl not in ok:
                probs.append("%s reported at %s instead of %s" % (n, pl, ok))
    if len(ds) > len(names):
        probs.append("%d reports for %d names" % (len(ds), len(names)))
    bad = []
    if probs:
        bad.append(Diff(w, ci, "undefined", {"problems": probs, "observed": [d["chain"] for d in ds]}))
    elif w.get("hints"):
        probs = [x for n, u in names.items() for x in _hint(n, u, seen[n][0].get("help") or "")]
        if probs:
            bad.append(Diff(w, ci, "hint", {"problems": probs, "observed": [[d["chain"], d.get("help")] for d in ds]}))
    return bad


def _hint(name, u, text):
    """What the report of an undefined name suggests: one of the names that may have been meant."""
    said = re.findall(r"`([^`\s]*)`", text)
    if u["near"] and not (said and said[0] in u["near"] and not [x for x in said[1:] if re.fullmatch(r"[\w.]+", x) and x not in u["near"]]):
        return ["%s: %r instead of suggesting one of %s" % (name, text, u["near"])]
    if not u["near"] and text:
        return ["%s: %r although no name is near" % (name, text)]
    return []
