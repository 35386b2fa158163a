"""Journals: opening them with the real code, and judging the results with spec/ConfJournal.tla."""
import json, os, random, re, shutil
from . import core, enc, gen

EPOCH = enc.EPOCH


def comps(path):
    return [enc.txt(c) for c in path.split("/") if c]


def lines_of(text):
    """The lines that a file with this text has, as they are read."""
    if isinstance(text, str):
        text = text.encode("utf8", "surrogateescape")
    ls = text.split(b"\n")
    if ls and ls[-1] == b"":
        ls.pop()
    return [l[:-1] if l.endswith(b"\r") else l for l in ls]


class Case:
    """One journal (with its files) on disk."""

    def __init__(self, cid, files, groups, main="main.journal", dirs=(), note=None, extra=None, crlf=False, nonl=False):
        self.id = cid
        self.files = files      # {relative path: lines (str or bytes) or text}
        self.groups = groups
        self.main = main
        # relative paths that are directories
        self.dirs = ["."] + sorted(set(dirs) | {d for f in files for d in self.parents(f)})
        self.note = note or []
        self.root = os.path.join(core.scratch(), "c%s" % cid)
        self.eol = "\r\n" if crlf else "\n"
        self.nonl = nonl
        self.extra = extra or {}

    @staticmethod
    def parents(f):
        p = os.path.dirname(f).split("/")
        return ["/".join(p[:i + 1]) for i in range(len(p)) if p[0]]

    def path(self, rel):
        return os.path.normpath(os.path.join(self.root, rel))

    def write(self):
        os.makedirs(self.root, exist_ok=True)
        for d in self.dirs:
            os.makedirs(self.path(d), exist_ok=True)
        for rel, ls in self.files.items():
            p = self.path(rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(ls, (list, tuple)):
                t = self.eol.join(ls) + ("" if self.nonl or not ls else self.eol)
            else:
                t = ls
            if isinstance(t, str):
                t = t.replace("@ABS@", self.root).encode("utf8", "surrogateescape")
            with open(p, "wb") as f:
                f.write(t)

    def index(self):
        """{absolute path: number in the specification}"""
        order = [self.main] + sorted(k for k in list(self.files) + self.dirs if k != self.main)
        return {self.path(k): i + 1 for i, k in enumerate(order)}

    def spec_files(self):
        out = []
        for p in self.index():
            if os.path.isdir(p):
                out.append(dict(path=comps(p), kind="dir", lines=[], toolong=0))
            elif not os.path.exists(p):
                out.append(dict(path=comps(p), kind="missing", lines=[], toolong=0))
            else:
                with open(p, "rb") as f:
                    ls = lines_of(f.read())
                long = next((i + 1 for i, l in enumerate(ls) if len(l) >= 65536), 0)
                # long comments outside any entry: their end does not matter
                ls = [l[:40] if len(l) > 2000 and l[:1] in b";#*" else l for l in ls]
                out.append(dict(path=comps(p), kind="ok", lines=[list(l) for l in ls], toolong=long))
        return out

    def clean(self):
        shutil.rmtree(self.root, ignore_errors=True)


LOGLINE = re.compile(r"^(.*?):(\d+):? ")


def encode(case, res, proj, log):
    """The observation of a case."""
    idx = case.index()
    if res == "ok" and proj is not None:
        o = enc.ledger(proj, idx)
    else:
        o = dict(enc.EMPTY)
    o["res"] = res
    logs = []
    for l in (log or "").splitlines():
        m = LOGLINE.match(l)
        if m and m.group(1) in idx:
            logs.append([idx[m.group(1)], int(m.group(2))])
    o["logs"] = logs
    return dict(id=case.id, files=case.spec_files(), obs=o, groups=case.groups, flat=0, mine=0, after=[])


VERDICT = re.compile(r'<<\s*"@@",\s*(\d+),\s*"(\w+)",\s*<<(.*?)>>,\s*"(.*?)",\s*(\d+)\s*>>')


def verdicts(out, v):
    for m in VERDICT.finditer(" ".join(out.split("\n"))):
        if v.get(int(m.group(1)), ("",))[0] == "accepted":
            continue  # some behaviour of the specification explains it
        v[int(m.group(1))] = (m.group(2), [g.strip().strip('"') for g in m.group(3).split(",") if g.strip()], m.group(4), int(m.group(5)))


# TLC can tell the value of everything that a right program shows: when it can not, what was shown makes no sense
SENSELESS = re.compile(r"Attempted to |evaluating|is not in the domain|TLC threw an unexpected exception|java.lang.\w*(Exception|Error)\b")
TROUBLE = re.compile(r"OutOfMemory|StackOverflow|No space left|not enough memory|Parsing or semantic analysis failed|Killed")


def judge(module, recs, timeout=800, heap="6g"):
    """Runs a conformance specification on records; returns {id: (verdict, failing groups, reason, number)}, states."""
    v, states = {}, (0, 0)

    def run(recs):
        nonlocal states
        path = os.path.join(core.scratch(), "%s-%d.ndjson" % (module, random.randrange(10**9)))
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        rc, out = core.tlc(module, env={"CASES": path}, timeout=timeout, heap=heap)
        os.unlink(path)
        verdicts(out, v)
        st = core.tlc_states(out)
        states = (states[0] + st[0], states[1] + st[1])
        return rc, out

    rc, out = run(recs)
    missing = [r for r in recs if r["id"] not in v]
    if missing or rc != 0:
        error = "%s: no verdict on %d of %d cases %s (rc %d)\n%s" % (module, len(missing), len(recs), [r["id"] for r in missing[:5]], rc, out[-3000:])
        if not missing or rc == 124 or not SENSELESS.search(out) or TROUBLE.search(out):
            raise core.HarnessError(error)
        while len(missing) > 1:     # which one is it?
            half = missing[:len(missing) // 2]
            rc2, out2 = run(half)
            if rc2 != 0 and (rc2 == 124 or not SENSELESS.search(out2) or TROUBLE.search(out2)):
                raise core.HarnessError(error)
            missing = half if rc2 != 0 else missing[len(half):]
        rc2, out2 = run(missing)
        if rc2 == 0 or rc2 == 124 or not SENSELESS.search(out2) or TROUBLE.search(out2):
            raise core.HarnessError(error)
        v[missing[0]["id"]] = ("rejected", ["nonsense"], "the specification gives no meaning to what was observed: " + " ".join(out2[out2.find("Error"):].split())[:400], 0)
        for r in recs:
            v.setdefault(r["id"], ("accepted", [], "not judged", 0))
    return v, states
