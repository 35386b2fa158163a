#!/usr/bin/env python3
"""seed.py validate <id>...: checks planted bugs as the final check does.
seed.py try <id>... [-- <property>...]: runs the checks of their properties on a copy of /repo with each of them."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "38a1dfa"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    return d, r


def original_lines(repo, patch):
    """Lines of the original repository that the patch removes or changes."""
    n = 0
    f = None
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            k = int(m.group(1))
            continue
        if f and l.startswith("-") and not l.startswith("---"):
            b = sh("git blame -l -s -L %d,%d HEAD -- %s" % (k, k, f), repo).stdout
            c = b.split()[0].lstrip("^")
            if sh("git merge-base --is-ancestor %s %s" % (c, BASE), repo).returncode == 0:
                n += 1
            k += 1
        elif f and l.startswith(" "):
            k += 1
    return n


def demo(i, repo):
    # the demonstration lies elsewhere, without patch and meta
    d = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir(os.path.join(V, "seeded", i)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            p = os.path.join(V, "seeded", i, f)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(d, f))
            else:
                shutil.copy(p, d)
    r = sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
    shutil.rmtree(d)
    return r


def validate(i):
    p = os.path.join(V, "seeded", i, "patch.diff")
    json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    d, repo = copy()
    try:
        n = original_lines(repo, p)
        if n == 0:
            return "changes no original line"
        r = demo(i, repo)
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout[-1500:]
        r = sh(["git", "apply", p], repo)
        if r.returncode:
            return "does not apply: " + r.stdout
        if sh("git status --short", repo).stdout.count("_test.go"):
            return "touches tests"
        r = sh("go build ./... && go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1", repo)
        if r.returncode or "FAIL" in r.stdout:
            return "build or tests fail: " + r.stdout[-1500:]
        r = demo(i, repo)
        if r.returncode == 0:
            return "demo passes with the patch: " + r.stdout[-800:]
        return "ok (%d original lines)" % n
    finally:
        shutil.rmtree(d)


def attempt(i, props):
    d, repo = copy()
    try:
        r = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], repo)
        if r.returncode:
            return "does not apply: " + r.stdout
        props = props or [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]
        out = []
        for q in props:
            r = subprocess.run([os.path.join(V, "run.py"), q], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_DEV_REPO=repo))
            ok = r.returncode == 1 and "VIOLATION property=%s " % q in r.stdout
            out.append("%s:%s" % (q, "caught" if ok else "MISSED" if r.returncode == 0 else "error %d %s" % (r.returncode, r.stdout[-600:])))
            if ok and os.environ.get("SHOW"):
                out.append("\n" + r.stdout[-600:])
        return " ".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[2:]
    props = []
    if "--" in a:
        k = a.index("--")
        a, props = a[:k], a[k + 1:]
    for i in a or sorted(os.listdir(os.path.join(V, "seeded"))):
        print(i, validate(i) if sys.argv[1] == "validate" else attempt(i, props), flush=True)
