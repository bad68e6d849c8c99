"""Run TLC and read the lines a specification prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.cases = []
        self.states = 0
        self.distinct = 0
        self.error = None
        self.trace = ""
        self.coverage = {}


def run(module, cfg, env=None, workers=8, timeout=800, heap="8g", extra=(), files=None, coverage=False):
    """Run TLC on a module of /verif/spec (or given in files) with the text of a configuration."""
    d = tempfile.mkdtemp(prefix="avdl-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".json")):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as h:
                h.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as h:
            h.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
               # states that TLC writes to disk lose the upper halves of their characters: keep them in memory
               "-Dtlc2.tool.queue.DiskStateQueue.BufSize=2097152",
               "-cp", CP, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta")]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC did not finish within %d s" % timeout)
        text = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = TlcResult()
    other = []
    for line in text.split("\n"):
        if line.startswith('<<"CASE", "'):
            body = line[len('<<"CASE", '):-2]
            r.cases.append(json.loads(json.loads(body)))
        else:
            other.append(line)
    rest = "\n".join(l for l in other if not l.startswith(("Parsing file", "Semantic processing", "Multiply-defined")))
    m = re.search(r"(\d+) states generated, (\d+) distinct states", rest)
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    for m in re.finditer(r"^<(\w+) line \d+.*of module (\w+)>: (\d+):(\d+)", rest, re.M):
        r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(4))
    if "No error has been found" not in rest:
        said = [l for l in rest.split("\n") if l.startswith(("Error", "Invariant", "***", "Parse Error", "Semantic error", "Unknown"))]
        dull = ("Computed ", "Linting ", "*** Warnings", "Warning: the definition", "its definition at", "TLC2 ", "Running ", "line 18, col 1 to line 18")
        r.error = "\n".join(l[:1500] for l in said[:8]) + "\n" + "\n".join(l for l in rest.split("\n") if l.strip() and not l.startswith(dull))
    return r
