"""The command line: run it in a directory of its own for every world of the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import conform, runner

CLI_INV = ["ExitTellsAll", "OnePlace", "NoneLost"]


def _text(p, f):
    return "/".join(p) or "."


def arguments(w, n):
    """The words of the command line; n picks where the options go and how they are spelled."""
    c = w["cli"]
    cmd = "idl" if w["api"] == "idl" else "idl2schemata"
    call = w["calls"][0]
    pos = []
    if c["how"] == "path":
        pos.append("/".join(call["path"]) or ".")
    elif c["how"] == "dash":
        pos.append("-")
    if c["out"]:
        pos.append("/".join(c["out"][0]) or ".")
    opts = []
    for d in w["dirs"]:
        d = "/".join(d) or "."
        opts.append(["--import-dir=" + d] if n & 1 else ["--import-dir", d])
    if c["args"] == "nocmd":
        return []
    if c["args"] == "cmd":
        cmd = "compile"
    if c["args"] == "option":
        opts.append(["--outdir"])
    if c["args"] == "short":
        opts.append(["-x"])
    if c["args"] == "noinput":
        pos = []
    flat = [x for o in opts for x in o]
    k = (n >> 1) % 3
    words = flat + pos if k == 0 else pos + flat if k == 1 else pos[:1] + flat + pos[1:]
    if c["args"] == "novalue":
        words.append("--import-dir")
    return [cmd] + words


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds + fs:
            p = os.path.join(d, x)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[r] = ("dir",)
            else:
                with open(p, "rb") as h:
                    out[r] = ("file", h.read())
    return out


def alter(path, how):
    """What becomes of a written file before the next run."""
    if not os.path.isfile(path):
        return
    with open(path, "rb") as h:
        b = h.read()
    b = {"same": b, "longer": b + b"\n}\n" + b, "shorter": b[:len(b) // 2], "other": b"old"}[how]
    with open(path, "wb") as h:
        h.write(b)


def run_one(item):
    n, w, base, disk = item
    root = os.path.join(base, "w%d" % n)
    os.makedirs(root)
    p = conform.prepare(w)
    src = None
    for f, t in zip(w["files"], p.texts):
        path = os.path.join(root, *f["path"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if f["kind"] == "dir":
            os.makedirs(path, exist_ok=True)
        elif f["kind"] == "link":
            os.symlink(conform._linktext(f), path)
        else:
            b = bytes.fromhex(f["text"]) if f["kind"] == "raw" else t.encode("utf-8")
            if w["calls"][0]["op"] == "str" and f is w["files"][0]:
                src = b         # the source only comes through standard input
            with open(path, "wb") as h:
                h.write(b)
    before = snapshot(root)
    args = arguments(w, n)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL")}
    env["NO_COLOR"] = "1"
    full = w["cli"]["sink"] == "full"
    out = open("/dev/full", "wb") if full else subprocess.PIPE
    try:
        for turn in range(2):
            q = subprocess.run([runner.CLI] + args, cwd=root, env=env, input=src if src is not None else b"", stdout=out,
                               stderr=subprocess.PIPE, timeout=60)
            if turn or w["cli"]["again"] == "no" or q.returncode != 0:
                break
            for path in disk:
                alter(os.path.join(root, *path), w["cli"]["again"])
        res = {"args": args, "code": q.returncode, "stdout": (q.stdout or b"").decode("utf-8", "replace"),
               "stderr": q.stderr.decode("utf-8", "replace")}
    except subprocess.TimeoutExpired:
        res = {"args": args, "code": "no end within 60 s", "stdout": "", "stderr": ""}
    finally:
        if full:
            out.close()
    after = snapshot(root)
    shutil.rmtree(root, ignore_errors=True)
    return p, res, before, after


def _doc(text):
    try:
        return conform.canon(conform.to_jv(text))
    except ValueError:
        return "not a JSON document: %r" % text[:200]


def differences(w, want, res, before, after):
    """What the command line did against what the specification says it does."""
    e = want["cli"]
    bad = []
    ok = e["code"] == 0
    if (res["code"] == 0) != ok or not isinstance(res["code"], int) or res["code"] < 0 or res["code"] > 100:
        bad.append("exit status %s instead of %s" % (res["code"], "0" if ok else "another than 0"))
    if not ok and not res["stderr"].strip():
        bad.append("no error on standard error")
    compiled = w["cli"]["args"] == "ok"
    n = len(re.findall(r"^\s*(?:\u26a0|Warning|warning)", res["stderr"], re.M))
    if compiled and n != e["warns"]:
        bad.append("%d warnings on standard error instead of %d" % (n, e["warns"]))
    if ok and not e["warns"] and res["stderr"].strip():
        bad.append("standard error says: %r" % res["stderr"][:200])
    if w["cli"]["sink"] != "full":
        if not e["sout"]:
            if res["stdout"]:
                bad.append("printed %r" % res["stdout"][:200])
        elif _doc(res["stdout"]) != conform.canon(e["sout"][0]):
            bad.append("printed another document: %r" % res["stdout"][:200])
    docs = {os.path.join(*p): d for p, d in e["disk"]}
    dirs = {os.path.join(*p) for p in e["made"]}
    # after a failure to write, what was written before it is as it may be
    lax = not ok and (docs or dirs or (want["outs"] and want["outs"][0]["ok"] and w["api"] == "schemata"))
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if p in docs:
            if b is None or b[0] != "file":
                if not lax:
                    bad.append("%s was not written" % p)
            elif _doc(b[1].decode("utf-8", "replace")) != conform.canon(docs[p]):
                if not (lax and a == b):
                    bad.append("%s has another document: %r" % (p, b[1][:200]))
        elif p in dirs:
            if b != ("dir",) and not lax:
                bad.append("%s is not a directory" % p)
        elif a != b and not (lax and p.endswith(".avsc")):
            bad.append("%s %s" % (p, "appeared" if a is None else "is gone" if b is None else "has changed"))
    for p in sorted((set(docs) | dirs) - set(before) - set(after)):
        if not lax:
            bad.append("%s is not there" % p)
    return bad


def universe(c, family, worlds):
    """Explore the command line in the specification, then do the same with the real one."""
    ws, whole = c.explore(family, "MC_Cli", worlds, extra_inv=CLI_INV, props=("NothingBefore", "Exits"), spec="CSpec",
                          report="CliReport", whole=True)
    c.build.wait()
    base = tempfile.mkdtemp(prefix="avdl-cli-")
    kinds = {}
    try:
        with ThreadPoolExecutor(8) as ex:
            for w, (p, res, before, after) in zip(ws, ex.map(run_one, [(n, w, base, [p for p, d in whole[w["id"]]["cli"]["disk"]]) for n, w in enumerate(ws)])):
                want = whole[w["id"]]
                k = "exit %d" % want["cli"]["code"]
                kinds[k] = kinds.get(k, 0) + 1
                bad = differences(w, want, res, before, after)
                if bad:
                    f = c.findings.get((c.pid, w["id"]))
                    if f:
                        c.known[w["id"]] = f
                        continue
                    c.violation(family, "avdl %s: %s" % (" ".join(res["args"]), "; ".join(bad)),
                                {"property": c.pid, "family": family, "what": "cli", "detail": bad, "expected": want["cli"],
                                 "world": w, "job": p.job, "result": res, "layout": ["plain", 0], "call": 0})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    c.traces += len(ws)
    c.families.append({"family": family, "kind": "TLA+ universe MC_Cli: %s, run with the command line" % ", ".join(worlds),
                       "worlds": len(ws), "replayed": len(ws), "outcomes": kinds})
    if len(c.samples) < 4:
        w = ws[len(ws) // 2]
        c.samples.append({"family": family, "cli": w["cli"], "specified": whole[w["id"]]["cli"]})
