"""Build the harness from /repo's working tree and run jobs against the real code."""
import json
import os
import queue
import select
import shutil
import subprocess
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    d = os.path.join(HARNESS, "target", "debug")
    return os.path.join(d, "runner"), os.path.join(d, "avdl")


RUNNER = os.path.join(HARNESS, "target", "debug", "runner")
CLI = os.path.join(HARNESS, "target", "debug", "avdl")


class _Proc:
    def __init__(self, scratch, env=None):
        self.scratch = scratch
        self.env = env
        self.p = None
        self.n = 0

    def start(self):
        self.n += 1
        d = os.path.join(self.scratch, "p%d" % self.n)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, NO_COLOR="1", RUST_BACKTRACE="0")
        if self.env:
            env.update(self.env)
        self.p = subprocess.Popen([RUNNER, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)
        self.buf, self.last = [], b""

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def run(self, job, timeout):
        if self.p is None:
            self.start()
        line = (json.dumps(job) + "\n").encode()
        # write in a helper thread: a big job could fill the pipe of a hung child
        def w():
            try:
                self.p.stdin.write(line)
                self.p.stdin.flush()
            except (OSError, ValueError):
                pass
        if len(line) > 60000:
            t = threading.Thread(target=w, daemon=True)
            t.start()
        else:
            w()
        end = time.time() + timeout
        while True:
            if b"\n" in self.last:
                out, self.last = b"".join(self.buf).split(b"\n", 1)
                self.buf = [self.last]
                return json.loads(out.decode("utf-8"))
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"id": job.get("id"), "crash": "no answer within %.0f s" % timeout, "results": []}
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                continue
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                rc = self.p.wait()
                self.stop()
                return {"id": job.get("id"), "crash": "process died (status %s)" % rc, "results": []}
            self.buf.append(b)
            self.last = b


def run_jobs(jobs, timeout=20.0, procs=8, env=None):
    """Run jobs, return results in order. Every job is run exactly once."""
    scratch = tempfile.mkdtemp(prefix="avdl-run-")
    res = [None] * len(jobs)
    q = queue.Queue()
    for i in range(len(jobs)):
        q.put(i)
    errs = []

    def work(k):
        pr = _Proc(os.path.join(scratch, "w%d" % k), env)
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                res[i] = pr.run(jobs[i], timeout)
        except Exception as e:  # noqa
            errs.append(e)
        finally:
            pr.stop()

    n = max(1, min(procs, len(jobs)))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(scratch, ignore_errors=True)
    if errs:
        raise ToolError("runner: %r" % errs[0])
    for i, r in enumerate(res):
        if r is None or "harness_error" in r:
            raise ToolError("runner: no result for job %d: %r" % (i, r))
    return res
