"""What every check does: ask the specification, replay, judge, report."""
import json
import os
import sys
import tempfile
import threading
import time
import traceback

from . import ast, batch, conform, runner, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INVARIANTS = ["DocsWellFormed", "RegistryUnique", "StackDistinct", "EmissionFaithful", "ReimportSame",
              "ExtractionComplete", "NothingUndefined", "WarningsKept", "TypeInv"]
ENOUGH = 12          # stop explaining violations after this many


class Build(threading.Thread):
    """The harness is built from /repo's working tree while TLC works."""

    def __init__(self):
        super().__init__(daemon=True)
        self.error = None
        self.start()

    def run(self):
        try:
            runner.build()
        except Exception as e:  # noqa
            self.error = e

    def wait(self):
        self.join()
        if self.error:
            raise self.error


def load_findings():
    """world id -> text, for the findings listed as known."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                out[(d["property"], d["world"])] = parts[2]
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.build = Build()
        self.states = self.transitions = self.traces = 0
        self.violations = []        # (summary, payload)
        self.notes = []
        self.families = []
        self.samples = []
        self.actions = {}
        self.known = {}
        self.findings = load_findings()
        self.assumptions = []

    # ------------------------------------------------------------------ helpers
    def budget_left(self):
        total = 200 if self.quick else 820
        return total - (time.time() - self.t0)

    def violation(self, family, summary, payload):
        self.violations.append((family, summary, payload))

    def _tlc(self, r, what):
        if r.error:
            raise runner.ToolError("TLC on %s: %s" % (what, r.error[:2500]))
        self.states += r.distinct
        self.transitions += r.states
        for k, v in r.coverage.items():
            self.actions[k] = self.actions.get(k, 0) + v

    # ----------------------------------------------------------------- families
    def universe(self, family, module, worlds, layouts=(("plain", 0),), extra_inv=(), props=("RegistryGrows",),
                 what=("status", "doc", "place", "undefined", "warnings", "crash"), timeout=700, tables="NoTables", keep=None, pick=None,
                 render=False, patience=20.0):
        """A universe of worlds written in TLA+: TLC explores it and checks the invariants of the
        specification in every state; then every world is replayed in the code.
        worlds: names of operators of the module, which take whether to go deep."""
        worlds = [worlds] if isinstance(worlds, str) else worlds
        ws, outs = self.explore(family, module, worlds, extra_inv, props, timeout, tables)
        if pick and len(ws) > pick:
            # every world was explored in the specification; these are replayed
            step = len(ws) / pick
            ws = [ws[int(i * step)] for i in range(pick)]
        if render:
            # reports and warnings are laid out too, as the command line does
            for w in ws:
                w["render"] = True
        return self._replay(family, ws, outs, layouts, what, keep, "TLA+ universe %s: %s" % (module, ", ".join(worlds)), patience)

    def explore(self, family, module, worlds, extra_inv=(), props=("RegistryGrows",), timeout=700, tables="NoTables",
                spec="Spec", report="Report", whole=False):
        """TLC on a universe: its worlds, named and in a fixed order, and what happens in each."""
        deep = "FALSE" if self.quick else "TRUE"
        worlds = [worlds] if isinstance(worlds, str) else worlds
        text = "---- MODULE Run ----\nEXTENDS %s\nRunWorlds(k) == CASE %s\n====\n" % (
            module, "\n  [] ".join("k = %d -> %s(%s)" % (i + 1, x, deep) for i, x in enumerate(worlds)))
        cfg = "SPECIFICATION %s\nCONSTANT Families = %d\nCONSTANT Worlds <- RunWorlds\nCONSTANT FileTables <- %s\n" % (spec, len(worlds), tables)
        for i in list(INVARIANTS) + list(extra_inv) + [report]:
            cfg += "INVARIANT %s\n" % i
        for p in props:
            cfg += "PROPERTY %s\n" % p
        r = tlc.run("Run", cfg, workers=8, timeout=timeout, files={"Run.tla": text})
        self._tlc(r, module)
        ws, outs = [], {}
        tabs = [t for c in r.cases for t in c.get("tables", [])]
        seen = set()
        for n, c in enumerate(c for c in r.cases if "w" in c):
            w = c["w"]
            key = json.dumps(w, sort_keys=True)
            if key in seen:
                raise runner.ToolError("%s: the specification leaves the outcome of a world open" % module)
            seen.add(key)
            if "fs" in w:
                w["files"] = tabs[w["fs"] - 1]
            w["id"] = n
            ws.append(w)
            outs[n] = c if whole else c["outs"]
        # TLC's workers print in any order
        order = sorted(range(len(ws)), key=lambda i: json.dumps(
            {k: v for k, v in ws[i].items() if k != "id" and not (k == "files" and "fs" in ws[i])}, sort_keys=True))
        ws = [ws[i] for i in order]
        outs = {"%s-%d" % (family, n): outs[w["id"]] for n, w in enumerate(ws)}
        for n, w in enumerate(ws):
            w["id"] = "%s-%d" % (family, n)
        if not ws:
            raise runner.ToolError("%s: no worlds" % module)
        return ws, outs

    def worlds(self, family, ws, layouts=(("plain", 0),), coverage=False, kind="generated",
               what=("status", "doc", "place", "undefined", "warnings", "crash"), keep=None):
        """Worlds made here; what they do is for the specification to say."""
        if not ws:
            return [], {}
        ids = [w["id"] for w in ws]
        assert len(set(ids)) == len(ids), "world ids repeat in " + family
        cfg = "SPECIFICATION Spec\nCONSTANT Families = 1\nCONSTANT Worlds <- BatchWorlds\nCONSTANT FileTables <- NoTables\n"
        for i in INVARIANTS + ["BatchReport"]:
            cfg += "INVARIANT %s\n" % i
        outs, r = batch.outcomes(ws, cfg=cfg, timeout=800, coverage=coverage)
        self._tlc(r, family)
        return self._replay(family, ws, outs, layouts, what, keep, kind)

    def _replay(self, family, ws, outs, layouts, what, keep, kind, patience=20.0):
        self.build.wait()
        diffs, n = batch.replay(ws, outs, layouts, keep=keep, timeout=patience)
        self.traces += n
        kinds = {}
        for w in ws:
            for o in outs[w["id"]]:
                if o["op"] != "compile":
                    continue
                k = ("unspecified" if o.get("open") else "success" if o["ok"]
                     else "undefined names" if o["und"] else sorted(e["rule"] for e in o["errs"])[0])
                kinds[k] = kinds.get(k, 0) + 1
        self.families.append({"family": family, "kind": kind, "worlds": len(ws), "layouts": len(layouts),
                              "replayed": n, "outcomes": kinds})
        self._sample(ws[0], outs[ws[0]["id"]], family)
        diffs = [d for d in diffs if d.what in what]
        self._judge(family, diffs)
        return ws, outs

    def _sample(self, w, outs, family):
        if len(self.samples) < 4:
            p = conform.prepare(w)
            self.samples.append({"family": family,
                                 "files": {"/".join(f["path"]): t for f, t in zip(w["files"], p.texts)},
                                 "calls": w["calls"], "specified": outs})

    def _judge(self, family, diffs):
        """Differences in documents count when they concern this property."""
        later = []
        for d in diffs:
            f = self.findings.get((self.pid, d.world["id"]))
            if f:
                self.known[d.world["id"]] = f
                continue
            if d.what == "doc":
                later.append(d)
            else:
                self.report(family, d)
        if not later:
            return
        # in portions: it is enough to find some that matter
        for part in range(0, len(later), 400):
            before = len(self.violations)
            self._judge_docs(family, later[part:part + 400])
            if len(self.violations) > before:
                break

    def _judge_docs(self, family, later):
        cases = []
        for k, d in enumerate(later):
            e, o = d.detail["expected"], d.detail["observed"]
            if d.world["api"] == "schemata":
                form = "schemata"
                e = [{"name": x["name"], "j": tidy(x["j"])} for x in e]
                o = [{"name": x["name"], "j": tidy(x["j"])} for x in o]
            else:
                form = d.form
                e, o = tidy(e), tidy(o)
            cases.append({"id": k, "prop": self.pid, "form": form, "exp": e, "obs": o})
        verdicts = judge(cases)
        for k, d in enumerate(later):
            v = verdicts.get(k)
            if v == "same":
                if len(self.notes) < 20:
                    self.notes.append("%s: document differs, but not in what %s is about" % (d.world["id"], self.pid))
            else:
                d.detail["verdict"] = v
                self.report(family, d)

    def report(self, family, d):
        p = d.prepared
        self.violation(family, "%s: %s" % (d.what, _short(d.detail)), {
            "property": self.pid, "family": family, "what": d.what, "detail": d.detail, "call": d.call,
            "layout": list(p.layout), "world": p.world, "job": p.job, "result": d.result})

    # ------------------------------------------------------------------- finish
    def finish(self, level="model_checking", extra=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        shown = []
        if self.violations:
            d = os.path.join(VERIF, "work", "replay")
            os.makedirs(d, exist_ok=True)
            self.violations.sort(key=lambda v: len(json.dumps(v[2], default=str)))
            for k, (fam, s, payload) in enumerate(self.violations[:ENOUGH]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, k))
                with open(path, "w") as h:
                    json.dump(payload, h, indent=1, default=str)
                shown.append((fam, s, path))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "families": self.families}
        if self.actions:
            cov["actions_taken"] = self.actions
        if self.notes:
            cov["notes"] = self.notes
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
        for wid, text in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for n in self.notes[:5]:
            print("note: " + n)
        for fam, s, path in shown:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   [%s] %s" % (fam, s[:600]))
        if len(self.violations) > len(shown):
            print("   ... and %d more" % (len(self.violations) - len(shown)))
        print("%s %s: %d states, %d runs of the code compared, %d violations, %.0f s" % (
            self.pid, ev["tier"], self.states, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def _short(x):
    s = json.dumps(x, default=str, ensure_ascii=False)
    return s if len(s) < 700 else s[:700] + "..."


def tidy(v):
    """Object keys sorted and floats spelled one way, which the specification does not look at."""
    t = v["t"]
    if t == "flt":
        return {"t": "flt", "s": repr(float(v["s"]))}
    if t == "arr":
        return {"t": "arr", "a": [tidy(x) for x in v["a"]]}
    if t == "obj":
        d = {}
        for p in v["o"]:
            d[p["k"]] = tidy(p["v"])
        return {"t": "obj", "o": [{"k": k, "v": d[k]} for k in sorted(d)]}
    return {k: v[k] for k in ("t", "b", "s") if k in v}


def judge(cases):
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="avdl-cases-")
    with os.fdopen(fd, "w") as h:
        for c in cases:
            h.write(json.dumps(c) + "\n")
    try:
        r = tlc.run("Judge", "SPECIFICATION Spec\nINVARIANT Report\nCONSTANT Cases <- JudgeCases\n",
                    env={"CASES": path}, timeout=300)
    finally:
        os.unlink(path)
    if r.error:
        raise runner.ToolError("TLC on Judge: " + r.error[-4000:])
    return {c["id"]: c["verdict"] for c in r.cases}


def main(plans):
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay_file(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        c = Check(pid, tier, seed)
        return plans[pid](c)
    except (runner.ToolError, tlc.TlcError) as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:  # noqa
        traceback.print_exc()
        return 2


def replay_file(path):
    """Run the job of a violation again and show what comes back."""
    runner.build()
    v = json.load(open(path))
    for f in v["job"]["files"]:
        print("--", f["path"])
        print(f.get("text", f))
    r = runner.run_jobs([v["job"]])[0]
    print(json.dumps(r, indent=1)[:6000])
    print("violation:", v["what"], json.dumps(v["detail"], indent=1, default=str)[:6000])
    return 0
