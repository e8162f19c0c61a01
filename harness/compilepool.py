"""Run the Acacia compiler from /repo, black box: every compilation is one
forked child that executes the command line entry point on files in its own
scratch directory and is thrown away afterwards."""
import io
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time

REPO = os.environ.get("ACACIA_REPO", "/repo")
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.pop("LANG", None)
os.environ["LC_ALL"] = "C.UTF-8"

_loaded = False
LOAD_ERROR = None


def preload():
    global _loaded, LOAD_ERROR
    if _loaded:
        return
    _loaded = True
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    try:
        import acaciamc.cli      # noqa
    except BaseException as e:   # the tree does not even import
        LOAD_ERROR = "%s: %s" % (type(e).__name__, e)


class Result:
    """rc, err (stderr text), files {relative path: text}, kind in
    ok / error (located or CLI error) / crash / timeout."""
    def __init__(self, rc, err, files, kind, extra=None):
        self.rc, self.err, self.files, self.kind = rc, err, files, kind
        self.extra = extra

    def message(self):
        t = self.err.strip()
        if "Traceback" in t:        # keep the innermost frame
            t = " / ".join(t.split("\n")[-5:])
        return t.replace("\n", " / ")[:500]


def read_tree(root):
    files = {}
    for d, dirs, names in os.walk(root):
        dirs.sort()
        for n in sorted(names):
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                files[os.path.relpath(p, root)] = f.read().decode("utf-8", "surrogateescape")
    return files


def _child(job):
    """In the child: write sources, run the CLI, collect the output."""
    tmp = tempfile.mkdtemp(prefix="aca")
    try:
        src = os.path.join(tmp, "src")
        os.mkdir(src)
        for name, text in job["sources"].items():
            p = os.path.join(src, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape")
            with open(p, "wb") as f:
                f.write(data)
        out = os.path.join(tmp, "out")
        if job.get("pre"):
            for name, text in job["pre"].items():
                p = os.path.join(out, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(text)
        main = job.get("main", "main.aca")
        argv = [os.path.join(REPO, "acacia.py"), os.path.join(src, main)]
        if job.get("out", True):
            argv += ["-o", out]
        argv += ["--verbose"] + job.get("opts", [])
        err = io.StringIO()
        rc = 0
        kind = "ok"
        os.chdir(src)
        if LOAD_ERROR:
            return Result(1, LOAD_ERROR, {}, "crash")
        old = sys.argv, sys.stderr, sys.stdout
        sys.argv, sys.stderr, sys.stdout = argv, err, io.StringIO()
        try:
            import acaciamc.cli
            acaciamc.cli.main()
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 1
            if e.code is None:
                rc = 0
        except BaseException as e:
            rc = 70
            err.write("uncaught %s: %s" % (type(e).__name__, e))
            kind = "crash"
        finally:
            sys.argv, sys.stderr, sys.stdout = old
        text = err.getvalue().replace(src + "/", "").replace(out, "OUT")
        if rc != 0 and kind == "ok":
            kind = "crash" if "Traceback (most recent call last)" in text else "error"
        files = read_tree(out) if os.path.isdir(out) else {}
        extra = read_tree(src) if job.get("want_src") else None
        return Result(rc, text, files, kind, extra)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_jobs(jobs, workers=8, timeout=60, post=None):
    """jobs: list of dicts (sources, opts, ...).  Returns list of Result (or
    of post(job, Result)).  Each job runs in its own forked child."""
    preload()
    results = [None] * len(jobs)
    live = {}    # fd -> [idx, pid, buf, t0]
    nxt = 0
    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(jobs) or live:
        while nxt < len(jobs) and len(live) < workers:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.alarm(timeout + 5)
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    res = _child(jobs[nxt])
                    if post is not None:
                        res = post(jobs[nxt], res)
                    data = pickle.dumps(res)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException as e:
                    code = 3
                    try:
                        sys.__stderr__.write("harness child: %r\n" % (e,))
                    except Exception:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = [nxt, pid, bytearray(), time.time()]
            nxt += 1
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                live[fd][2].extend(chunk)
                continue
            idx, pid, buf, _ = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if buf:
                results[idx] = pickle.loads(bytes(buf))
            else:
                results[idx] = Result(99, "compiler child died", {}, "crash")
        now = time.time()
        for fd in list(live):
            idx, pid, buf, t0 = live[fd]
            if now - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                results[idx] = Result(98, "compiler did not finish in %ds" % timeout,
                                      {}, "timeout")
    return results
