"""Ask the specification what worlds do, replay them in the code, compare."""
import json
import os
import tempfile

from . import ast, conform, runner, tlc

BATCH_CFG = "SPECIFICATION Spec\nINVARIANT Report\nCONSTANT Families = 1\nCONSTANT Worlds <- BatchWorlds\nCONSTANT FileTables <- NoTables\n"


def outcomes(worlds, workers=8, module="Batch", cfg=BATCH_CFG, timeout=600, coverage=False):
    """id -> outcomes of the calls, as the specification has them."""
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="avdl-worlds-")
    with os.fdopen(fd, "w") as h:
        for w in worlds:
            h.write(json.dumps(ast.for_tlc(w)) + "\n")
    try:
        r = tlc.run(module, cfg, env={"WORLDS": path}, workers=workers, timeout=timeout, coverage=coverage)
    finally:
        os.unlink(path)
    if r.error:
        raise runner.ToolError("TLC: " + r.error[:1500] + " ... " + r.error[-3000:])
    res = {c["id"]: c["outs"] for c in r.cases}
    if len(r.cases) != len(worlds):
        raise runner.ToolError("TLC: %d outcomes for %d worlds" % (len(r.cases), len(worlds)))
    miss = [w["id"] for w in worlds if w["id"] not in res]
    if miss:
        raise runner.ToolError("TLC gave no outcome for %s" % miss[:5])
    return res, r


def replay(worlds, outs, layouts=(("plain", 0),), timeout=20.0, keep=None):
    """Differences over all worlds and layouts, and how many runs were compared.
    keep: where to put (prepared, result) of every run."""
    ps, jobs = [], []
    for w in worlds:
        for style, seed in layouts:
            p = conform.prepare(w, style, seed, jid=len(jobs))
            p.layout = (style, seed)
            ps.append(p)
            jobs.append(p.job)
    rs = runner.run_jobs(jobs, timeout=timeout)
    diffs = []
    if keep is not None:
        keep += zip(ps, rs)
    for p, r in zip(ps, rs):
        for d in conform.compare(p, outs[p.world["id"]], r):
            d.prepared, d.result = p, r
            diffs.append(d)
    return diffs, len(jobs)
