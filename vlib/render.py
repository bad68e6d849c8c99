"""Turn syntax trees of the specification into IDL text, remembering where every node went."""
import random

KEYWORDS = {"array", "boolean", "bytes", "date", "decimal", "double", "enum", "error", "false", "fixed",
            "float", "idl", "import", "int", "local_timestamp_ms", "long", "map", "null", "oneway",
            "protocol", "namespace", "record", "schema", "string", "throws", "timestamp_ms", "time_ms",
            "true", "union", "uuid", "void", "NaN", "Infinity"}


class Layout:
    """plain: one style; noise: random white space and comments; rng decides."""

    def __init__(self, style="plain", seed=0):
        self.style = style
        self.rng = random.Random(seed)

    def sep(self, need, after_doc, before_doc):
        """White space between two tokens; need: at least something."""
        if self.style == "plain":
            return " "
        if self.style == "tight":
            return " " if need else ""
        r = self.rng
        if after_doc:
            return r.choice(["\n", " ", "\r\n\t", "\n\n", "", "\n  "])
        parts = []
        for _ in range(r.choice([0, 1, 1, 2])):
            parts.append(r.choice([" ", "\n", "\t", "\r\n", "  ", "\f", " /* c; } { \" */ ", " // x ' \" {\n", "/* \u00e9\u2603\U0001f600 */", "// \U0001d11e \u00fc\n",
                                   "\n\n", "/*c*/", "/*\n * } */"]))
        s = "".join(parts)
        if need and s == "":
            s = r.choice([" ", "\n", "/* */"])
        return s


def quote(s, layout=None):
    q = '"'
    out = []
    for c in s:
        if c == "\\":
            out.append("\\\\")
        elif c == q:
            out.append("\\" + q)
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        elif c == "\b":
            out.append("\\b")
        elif c == "\f":
            out.append("\\f")
        elif ord(c) < 32:
            out.append("\\u%04x" % ord(c))
        else:
            out.append(c)
    return q + "".join(out) + q


def json_quote(s):
    import json
    return json.dumps(s, ensure_ascii=False)


class Renderer:
    def __init__(self, layout=None):
        self.lay = layout or Layout()
        self.out = []
        self.n = 0          # bytes so far
        self.last = ""      # last token
        self.spans = {}     # (id, at) -> byte offset

    def raw(self, s):
        self.out.append(s)
        self.n += len(s.encode("utf-8"))

    def tok(self, t, *marks):
        wordy = lambda c: c.isalnum() or c in "_-.`$" or ord(c) > 127
        need = bool(self.last) and (
            (wordy(self.last[-1]) and wordy(t[0])) or (self.last[-1] in "/*" and t[0] in "/*"))
        isdoc = t.startswith("/**")
        afterdoc = self.last.startswith("/**")
        if self.last or self.lay.style == "noise":
            if self.lay.style == "plain":
                if self.last in ("{", ";", "}") or afterdoc:
                    self.raw("\n")
                elif t in (";", ",", ")", ">", "(", "?") or self.last in ("(", "<", "@", "") or t == "<":
                    if need:
                        self.raw(" ")
                else:
                    self.raw(" ")
            else:
                s = self.lay.sep(need, afterdoc, isdoc)
                self.raw(s)
        for m in marks:
            self.spans.setdefault(m, self.n)
        self.raw(t)
        self.last = t

    # -- pieces
    def mark(self, ident):
        return ident

    def ident(self, s, *marks):
        bt = s.split(".")[-1] in KEYWORDS and "." not in s or s in KEYWORDS
        if not bt and self.lay.style == "noise" and self.lay.rng.random() < 0.15 and s.isidentifier():
            bt = True
        self.tok("`%s`" % s if bt else s, *marks)

    def doc(self, d):
        if d:
            self.tok("/** %s */" % d[0])

    def value(self, v, *marks):
        t = v["t"]
        if "raw" in v:
            self.tok(v["raw"], *marks)
        elif t == "null":
            self.tok("null", *marks)
        elif t == "bool":
            self.tok("true" if v["b"] else "false", *marks)
        elif t in ("int", "flt"):
            self.tok(v["s"], *marks)
        elif t == "str":
            self.tok(quote(v["s"], self.lay), *marks)
        elif t == "arr":
            self.tok("[", *marks)
            for i, x in enumerate(v["a"]):
                if i:
                    self.tok(",")
                self.value(x)
            self.tok("]")
        else:
            self.tok("{", *marks)
            for i, p in enumerate(v["o"]):
                if i:
                    self.tok(",")
                self.tok(p.get("raw") or quote(p["k"], self.lay))
                self.tok(":")
                self.value(p["v"])
            self.tok("}")

    def annos(self, annos, *marks):
        for i, a in enumerate(annos):
            ms = ((a["id"], "c"),) + (marks if i == 0 else ())
            self.tok("@", *ms)
            # the name follows the sign directly: keep it one piece
            name = a["n"]
            self.last = "@"
            if name in KEYWORDS:
                name = "`%s`" % name
            self.raw(name)
            self.last = name
            self.tok("(")
            self.value(a["v"])
            self.tok(")")
        return marks if not annos else ()

    def type(self, t, *marks):
        """marks go to the start of the whole type, annotations included."""
        i = t.get("id", 0)
        if t["k"] == "void":
            self.tok("void", *(marks + ((i, "s"), (i, "c"))))
            return
        rest = self.annos(t.get("annos", []), *(marks + ((i, "s"),)))
        core = rest + ((i, "c"),)
        k = t["k"]
        if k == "prim":
            self.tok(t["n"], *core)
        elif k == "ref":
            self.ident(t["n"], *core)
        elif k == "dec":
            self.tok("decimal", *core)
            self.tok("(")
            self.tok(t["p"].get("raw", t["p"]["s"]), (t["p"]["id"], "c"))
            if t["s"]:
                self.tok(",")
                self.tok(t["s"][0].get("raw", t["s"][0]["s"]), (t["s"][0]["id"], "c"))
            self.tok(")")
        elif k in ("arr", "map"):
            self.tok("array" if k == "arr" else "map", *core)
            self.tok("<")
            self.type(t["of"])
            self.tok(">")
        else:
            self.tok("union", *core)
            self.tok("{")
            for n, m in enumerate(t["of"]):
                if n:
                    self.tok(",")
                self.type(m)
            self.tok("}")
        if k in ("prim", "ref", "dec") and t.get("q"):
            self.tok("?")

    def var(self, v):
        self.doc(v["doc"])
        self.annos(v["annos"])
        self.ident(v["ident"], (v["id"], "c"))
        if v["dflt"]:
            self.tok("=")
            self.value(v["dflt"][0], (v["did"], "c"))

    def fielddecl(self, f):
        self.doc(f["doc"])
        self.type(f["type"])
        for i, v in enumerate(f["vars"]):
            if i:
                self.tok(",")
            self.var(v)

    def item(self, it):
        k = it["k"]
        if k == "orphan":
            self.tok("/** %s */" % it["text"], (it["id"], "c"))
            return
        if k == "import":
            self.tok("import", (it["id"], "c"))
            self.tok(it["how"])
            self.tok(it.get("raw") or quote(("@ROOT@/" if it.get("abs") else "") + "/".join(it["path"]), self.lay))
            self.tok(";")
            return
        self.doc(it["doc"])
        if k == "msg":
            rest = self.annos(it["annos"], (it["id"], "s"))
            self.type(it["ret"], *rest)
            self.ident(it["ident"])
            self.tok("(")
            for i, p in enumerate(it["params"]):
                if i:
                    self.tok(",")
                self.fielddecl(p)
            self.tok(")")
            if it["oneway"]:
                self.tok("oneway")
            if it["throws"]:
                self.tok("throws")
                for i, e in enumerate(it["throws"]):
                    if i:
                        self.tok(",")
                    self.ident(e["n"], (e["id"], "c"))
            self.tok(";")
            return
        rest = self.annos(it["annos"], (it["id"], "s"))
        self.tok("record" if k == "record" else k, *rest)
        self.ident(it["ident"], (it["nid"], "c"))
        if k in ("record", "error"):
            self.tok("{")
            for f in it["fields"]:
                self.fielddecl(f)
                self.tok(";")
            self.tok("}")
        elif k == "enum":
            self.tok("{")
            for i, s in enumerate(it["syms"]):
                if i:
                    self.tok(",")
                self.ident(s["s"], (s["id"], "c"))
            self.tok("}")
            if it["dflt"]:
                self.tok("=")
                self.ident(it["dflt"][0]["s"], (it["dflt"][0]["id"], "c"))
                self.tok(";")
        else:
            self.tok("(")
            self.tok(it["size"].get("raw", it["size"]["s"]), (it["size"]["id"], "c"))
            self.tok(")")
            self.tok(";")

    def unit(self, u):
        if u["form"] == "protocol":
            self.doc(u["doc"])
            self.annos(u["annos"])
            self.tok("protocol")
            self.ident(u["ident"], (u["nid"], "c"))
            self.tok("{")
            for it in u["items"]:
                self.item(it)
            self.tok("}")
        else:
            if u["ns"]:
                self.tok("namespace")
                self.ident(u["ns"][0])
                self.tok(";")
            if u["form"] == "schema":
                self.tok("schema")
                self.type(u["main"])
                self.tok(";")
            for it in u["items"]:
                self.item(it)
        if self.lay.style == "noise":
            r = self.lay.rng
            self.raw(r.choice(["", "\n", " // end\n", "\n/* end */\n", "\n\u001a } garbage \u00e9 /** x", "\u001a \u001a", "\n\u001a record { \u001a } /* \" \n\u001a", "\r\n\u001a"]))
        elif self.lay.style == "plain":
            self.raw("\n")
        return "".join(self.out)


def render_json(v, comments=None):
    """JSON text of a value of the specification; comments: a random generator, or None."""
    def c():
        if comments is None or comments.random() > 0.15:
            return ""
        return comments.choice([" /* c */ ", " // x\n", "/* \" */"])
    t = v["t"]
    if "raw" in v:
        return v["raw"]
    if t == "null":
        return "null"
    if t == "bool":
        return "true" if v["b"] else "false"
    if t in ("int", "flt"):
        return v["s"]
    if t == "str":
        return json_quote(v["s"])
    if t == "arr":
        return "[" + c() + ", ".join(render_json(x, comments) + c() for x in v["a"]) + "]"
    return "{" + c() + ", ".join(json_quote(p["k"]) + ": " + c() + render_json(p["v"], comments) + c()
                                 for p in v["o"]) + "}"
