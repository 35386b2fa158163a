"""Building the code under test, running it, and running TLC."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # set only while developing the checks
SPEC = os.path.join(VERIF, "spec")
CPUS = os.cpu_count() or 4


class HarnessError(Exception):
    """The check itself cannot be done (exit code 2): never a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def go_env():
    env = dict(os.environ)
    env.update(HOME=os.environ.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    p = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(p):
        env["PATH"] = p + ":" + env.get("PATH", "/usr/bin:/bin")
    return env


def build_harness(race=False, name="harness"):
    """Builds a harness inside the module of /repo, from its working tree, with an overlay."""
    out = os.path.join(scratch(), name + "-race" if race else name)
    src = os.path.join(VERIF, name)
    pkg = "cmd/zzverif" + name.replace("_", "")
    rep = {}
    for f in os.listdir(src):
        if f.endswith(".go"):
            rep[os.path.join(REPO, pkg, f)] = os.path.join(src, f)
    ov = os.path.join(scratch(), "%s-overlay%s.json" % (name, "-race" if race else ""))
    with open(ov, "w") as fp:
        json.dump({"Replace": rep}, fp)
    cmd = ["go", "build"]
    if race:
        cmd.append("-race")
    cmd += ["-overlay", ov, "-o", out, "./" + pkg]
    r = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("cannot build the harness:\n" + r.stdout)
    return out


def build_cli(name="ledger", variant=""):
    """Builds a command; with variant "tables", with the tables written to a file instead of drawn in a terminal."""
    out = os.path.join(scratch(), name + "-cli" + variant)
    extra = []
    if variant == "tables":
        mod = os.path.join(scratch(), "tables.mod")
        with open(os.path.join(REPO, "go.mod")) as f:
            text = f.read()
        with open(mod, "w") as f:
            f.write(text + "\nreplace github.com/cespedes/tableview => %s\n" % os.path.join(VERIF, "stubs", "tableview"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch(), "tables.sum"))
        extra = ["-modfile=" + mod]
    r = subprocess.run(["go", "build"] + extra + ["-o", out, "./cmd/" + name], cwd=REPO, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise HarnessError("cannot build cmd/%s:\n" % name + r.stdout)
    return out


class Worker:
    """One process of the harness.  A case that ends or blocks it gets the result 'crash' or 'hang'."""

    def __init__(self, binary, timeout=30.0, env=None):
        self.binary, self.timeout, self.env = binary, timeout, env
        self.p = None

    def start(self):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ)
        e["GOMEMLIMIT"] = "3GiB"
        e["GOMAXPROCS"] = e.get("GOMAXPROCS", "4")
        e["TZ"] = "UTC"
        if self.env:
            e.update(self.env)
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err,
                                  preexec_fn=lambda: (os.dup2(w, 3), os.set_inheritable(3, True)), close_fds=False,
                                  cwd=scratch(), env=e, start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "rb", buffering=1 << 20)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.r.close()
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p = None

    def run(self, case):
        if self.p is None:
            self.start()
        hung = []

        def kill():
            hung.append(1)
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        t = threading.Timer(self.timeout, kill)
        t.start()
        try:
            try:
                self.p.stdin.write((json.dumps(case) + "\n").encode())
                self.p.stdin.flush()
            except BrokenPipeError:
                pass
            while True:
                line = self.r.readline()
                if not line:
                    break
                m = json.loads(line)
                if m.get("begin"):
                    continue
                return m["out"]
        finally:
            t.cancel()
        self.p.wait()
        self.err.seek(0)
        text = self.err.read().decode("utf8", "replace")[-4000:]
        self.stop()
        return [{"res": "hang" if hung else "crash", "err": text}]


def run_cases(binary, cases, workers=None, timeout=30.0, env=None):
    """Runs scripts {'id', 'ops'}; returns {id: outputs}."""
    res = {}
    n = max(1, min(workers or CPUS, len(cases)))
    lock = threading.Lock()
    it = iter(cases)

    def loop(_):
        w = Worker(binary, timeout, env)
        try:
            while True:
                with lock:
                    c = next(it, None)
                if c is None:
                    return
                res[c["id"]] = w.run(c)
        finally:
            w.stop()
    with ThreadPoolExecutor(n) as ex:
        for f in [ex.submit(loop, i) for i in range(n)]:
            f.result()
    return res


TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc(module, cfg=None, env=None, workers=None, timeout=800, extra=(), heap="6g", deadlock=False):
    """Runs TLC; returns (return code, output)."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", md, "-workers", str(workers or CPUS), "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    if not deadlock:
        cmd.insert(-1, "-deadlock")
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        rc, out = 124, o.decode("utf8", "replace") if isinstance(o, bytes) else o
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def tlc_states(out):
    m = None
    for m in STATES.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
