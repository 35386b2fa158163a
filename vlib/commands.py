"""The end of commands (C33): judged with the outcome that the specification gives to what they read."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core

REPORTS = [["accounts"], ["a", "-tree"], ["stats"], ["print"], ["balance"], ["bal"], ["-total", "b"], ["is"], ["-total", "incomestatement"], ["delta", "a"], ["delta"], ["-negate", "delta", "e"], ["price"], [],
           ["stats", "--", "balance"], ["--", "print"], ["accounts", "--"], ["-b", "2001", "stats"], ["-e", "2030-12", "balance", "x"], ["-pivot", "a", "balance"], ["-currency", "EUR", "balance"]]
MISUSED = [["nosuch"], ["Balance"], ["balances"], ["help"], ["-nosuch", "balance"], ["-b", "yesterday", "balance"], ["-e", "2020-13", "stats"], ["-b"], ["-total=maybe", "balance"], ["-b", "2020-02-30", "accounts"],
           ["--", "nosuch"], ["--", "nosuch", "--", "stats"], ["-e", "20200", "nosuch"], ["accounts", "-nosuch"]]
GROWTH = [[], ["-e", "2020"], ["-measures", "3"], ["-batch"], ["-e", "2020-12-31", "--", "-e", "2021"]]
MISUSED_GROWTH = [["-e", "x"], ["-period", "x"], ["-measureperiod", ""], ["-nosuch"], ["-measures", "x"], ["-b", "2021-02-30"], ["-e"], ["-e", "x", "--", "-measures", "1"]]


class Job:
    """How a command was called; wrong: it could not do anything, whatever there is to read."""

    def __init__(self, name, argv, env=None, wrong=False):
        self.name, self.argv, self.env, self.wrong = name, argv, env, wrong


def with_file(r, path, argv, other):
    """The arguments, and LEDGER_FILE: what to read is said in one or the other, and the argument prevails."""
    if r.random() < 0.3:
        return argv, path
    return ["-f", path] + argv, r.choice([None, None, "", other])


def journal_jobs(r, path, other):
    out = []
    for _ in range(5):
        wrong = r.random() < 0.2
        a, e = with_file(r, path, r.choice(MISUSED if wrong else REPORTS), other)
        out.append(Job("ledger", a, e, wrong))
    for _ in range(2):
        wrong = r.random() < 0.2
        a, e = with_file(r, path, r.choice(MISUSED_GROWTH if wrong else GROWTH), other)
        out.append(Job("muscular", a, e, wrong))
    k = r.random()
    if k < 0.15:
        out.append(Job(r.choice(["ledger", "muscular"]), r.choice([["stats"], [], ["-f"], ["stats", "-f", path], ["--", "stats"]]), r.choice([None, ""]), True))
    elif k < 0.3:
        out.append(Job("ledger", ["-f", r.choice(["nosuch:" + path, "nosuch:", ":", "postgres:" + path, path + "/x", path + ".absent"]), "stats"], r.choice([None, path]), True))
    return out + database_jobs(r, path, other)


def database_jobs(r, src, other):
    out = [Job(n, [src], r.choice([None, None, other])) for n in ("acc", "tacc")]
    if r.random() < 0.3:
        out.append(Job(r.choice(["acc", "tacc"]), r.choice([[], [src, src], ["-f", src], [other], ["nosuch:" + src], [src, "--"]]), r.choice([None, src]), True))
    return out


def execute(binaries, job, tables):
    e = {k: v for k, v in os.environ.items() if k not in ("LEDGER_FILE",)}
    if job.env is not None:
        e["LEDGER_FILE"] = job.env
    e["VERIF_TABLES"] = tables
    try:
        p = subprocess.run([binaries[job.name]] + job.argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=e, cwd=core.scratch())
    except subprocess.TimeoutExpired:
        return dict(wrong=job.wrong, status="hang", printed=False), b"", b""
    shown = False
    if os.path.exists(tables):
        shown = True
        os.remove(tables)
    crash = p.returncode < 0 or p.returncode > 125 or b"\ngoroutine " in p.stderr
    return dict(wrong=job.wrong, status="crash" if crash else "ok" if p.returncode == 0 else "fail", printed=bool(p.stdout) or shown), p.stdout, p.stderr


STAMP = re.compile(r"^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ")


def says(err, log):
    """There is something on the standard error besides what is always written there."""
    left = [STAMP.sub("", l).strip() for l in err.decode("utf8", "replace").splitlines()]
    for l in (log or "").splitlines():
        l = STAMP.sub("", l).strip()
        if l in left:
            left.remove(l)
    return any(left)


def run(ck, cases, jobs_of, logs):
    """{id: what the commands did}; jobs_of(case) -> jobs. Cases are on disk; logs: what opening them writes on the standard error."""
    binaries = dict(ledger=ck.cli("ledger", "tables"), tacc=ck.cli("tacc", "tables"), acc=ck.cli("acc"), muscular=ck.cli("muscular"))
    jobs = [(c.id, j) for c in cases for j in jobs_of(c)]
    with ThreadPoolExecutor(core.CPUS) as ex:
        outs = list(ex.map(lambda x: execute(binaries, x[1][1], os.path.join(core.scratch(), "ends%d" % x[0])), enumerate(jobs)))
    done = {c.id: [] for c in cases}
    for (cid, j), (o, out, err) in zip(jobs, outs):
        o["said"] = says(err, logs.get(cid))
        done[cid].append((j, o, out, err))
        ck.note("%s: %s" % (j.name, "misused" if j.wrong else "used"))
    return done


def details(done):
    return [dict(command=[j.name] + j.argv, LEDGER_FILE=j.env, misused=j.wrong, status=o["status"], printed=out.decode("utf8", "replace")[:2000], errors=err.decode("utf8", "replace")[-1500:]) for j, o, out, err in done]


def fields(done):
    return dict(commands=[o for _, o, _, _ in done])
