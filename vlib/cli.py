"""The command line (C16, C17, C18): judged with spec/ConfCLI.tla."""
import datetime, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, enc, gen, journal
from .check import Tokens, files_text, outcome, run_journals

COMPS = ["Income", "Income", "Expense", "Expense", "Assets", "Bank", "Cash", "Food", "Rent", "Salary", "Incomes", "income", "Expenses", "Café", "a", "B", "Card 1", "Liabilities"]
ALIAS = {"balance": ["balance", "bal", "b"], "incomestatement": ["incomestatement", "is"], "accounts": ["accounts", "a"], "delta": ["delta"], "price": ["price"], "stats": ["stats"], "print": ["print"]}
SAFE = 1767225600   # 2026-01-01: nobody runs this before


def date(t):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)


def date_arg(r, times):
    """A begin or end date near some of these times."""
    t = date(r.choice(times) + r.choice([0, 0, 0, 1, -1, 3600, -3600, 86400, -86400, 86400 * 31, -86400 * 31, 86400 * 366, -86400 * 366]))
    y = "%04d" % t.year
    k = r.random()
    s = r.choice("-/.") if k < 0.98 else r.choice("_:")
    if k < 0.2:
        return y
    if k < 0.45:
        return y + s + "%02d" % t.month
    if k < 0.75:
        return y + s + "%02d" % t.month + s + "%02d" % t.day
    if k < 0.98:
        d = y + s + "%02d" % t.month + s + "%02d" % t.day + r.choice("/-_") + "%02d" % t.hour
        if r.random() < 0.8:
            d += ":%02d" % t.minute
            if r.random() < 0.8:
                d += ":%02d" % t.second
        return d
    return r.choice(["202", "2020-13", "2020-1", "yesterday", "2020-02-30", "20200101", "2020-01-01x"])


class Run:
    def __init__(self, cmd, args=(), b="", e="", pivots=(), currs=(), market=False, total=False, negate=False, batch=False, word=None, tree=False, order=None):
        self.cmd, self.args, self.b, self.e, self.pivots, self.currs = cmd, list(args), b, e, list(pivots), list(currs)
        self.market, self.total, self.negate, self.batch = market, total, negate, batch
        self.tree = tree
        opts = []
        for k, v in (("-b", b), ("-e", e)):
            if v:
                opts.append([k, v])
        for k, vs in (("-pivot", self.pivots), ("-currency", self.currs)):
            opts += [[k, v] for v in vs]
        opts += [["-" + k] for k in ("market", "total", "negate", "batch") if getattr(self, k)]
        if order is not None:
            order.shuffle(opts)
        self.argv = sum(opts, []) + [word or cmd] + (["-tree"] if tree else []) + self.args

    def spec(self):
        return dict(cmd=self.cmd, args=[enc.txt(a) for a in self.args], b=enc.txt(self.b), e=enc.txt(self.e), pivots=[enc.txt(p) for p in self.pivots],
                    currs=[enc.txt(c) for c in self.currs], market=self.market, total=self.total, negate=self.negate, batch=self.batch, tree=self.tree)


def patterns(r, p, n):
    """Parts of names of accounts, in ASCII."""
    out = []
    for _ in range(n):
        full = r.choice(p["accts"])["full"] or "a"
        k = r.random()
        if k < 0.15:
            q = r.choice(["x", "zzz", "income", "Expense", "a", ":", "transfer", "INCOME", "e"])
        elif k < 0.4:
            q = full
        else:
            i = r.randrange(len(full))
            q = full[i:i + r.randint(1, 8)]
            q = "".join(c.upper() if r.random() < 0.5 else c.lower() for c in q) if r.random() < 0.3 else q
        if all(ord(c) < 128 for c in q) and not q.startswith("-") and q:
            out.append(q)
    return out


KINDS = ("balance",) * 6 + ("incomestatement",) * 4 + ("delta",) * 4 + ("price",) * 2 + ("stats",) * 2 + ("accounts",)


def command(r, p, limits, kinds=KINDS):
    times = sorted({t["time"][0] for t in p["txns"]} | {s["time"][0] for t in p["txns"] for s in t["posts"]} | {x["time"][0] for x in p["prices"]}) or [0]
    times = [t for t in times if len(str(date(t).year)) == 4] or [0]
    cmd = r.choice(kinds)
    k = dict(word=r.choice(ALIAS[cmd]), order=r)
    names = [c["name"] for c in p["currs"] if c["name"] and not c["name"].startswith("-")]
    if cmd == "balance":
        k.update(total=r.random() < 0.2, market=r.random() < 0.3, args=patterns(r, p, r.choice([0, 0, 1, 1, 2, 3])))
        if names and r.random() < 0.25:
            k["currs"] = [r.choice(names + ["nothing"]) for _ in range(r.choice([1, 1, 2]))]
    elif cmd == "incomestatement":
        k.update(total=r.random() < 0.25, args=patterns(r, p, r.choice([0, 0, 0, 1, 2])))
    elif cmd == "delta":
        k.update(negate=r.random() < 0.3, market=r.random() < 0.4, args=patterns(r, p, r.choice([1, 1, 2, 3])) if r.random() < 0.95 else [])
    elif cmd == "price":
        k.update(batch=r.random() < 0.3, args=[r.choice(names + names + ["nothing"]) for _ in range(r.randint(1, 3))] if names else ["nothing"])
    elif cmd == "accounts":
        k["tree"] = r.random() < 0.4
    if r.random() < 0.15:      # options that say nothing to this command
        k["batch" if cmd in ("balance", "incomestatement") or cmd != "price" and r.random() < 0.5 else "total"] = True
    if r.random() < limits:
        k["b"] = date_arg(r, times)
    if r.random() < limits:
        k["e"] = date_arg(r, times)
    if r.random() < limits * 0.5:
        k["pivots"] = patterns(r, p, r.choice([1, 1, 2]))
    if "e" not in k and (k.get("market") or cmd == "price") and any(x["time"][0] >= SAFE for x in p["prices"]):
        k["e"] = "%04d" % max(date(x["time"][0]).year for x in p["prices"])
    return Run(cmd, **k)


def execute(binary, path, argv, env_file=False):
    e = {k: v for k, v in os.environ.items() if k not in ("LEDGER_FILE",)}
    if env_file:
        e["LEDGER_FILE"] = path
    try:
        p = subprocess.run([binary] + ([] if env_file else ["-f", path]) + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=e, cwd=core.scratch())
    except subprocess.TimeoutExpired:
        return "hang", b"", b""
    return "ok" if p.returncode == 0 else "fail" if p.returncode == 1 else "crash", p.stdout, p.stderr


def neat(b):
    return re.sub(rb"[\t-\r ]+", b" ", b).strip(b" ")


def raw_lines(out, tok):
    ls = out.split(b"\n")
    if ls and ls[-1] == b"":
        ls.pop()
    return [tok(l.decode("latin1")) for l in ls]


def blocks(out, tok):
    """What a journal has for each of its transactions: the line with its date, and those below it."""
    bs = []
    for l in out.split(b"\n"):
        if l[:1].isdigit():
            bs.append([l])
        elif l.strip() and not l[:1].isspace():
            bs.append(None)
        elif l.strip() and bs and bs[-1] is not None:
            bs[-1].append(l)
    return [tok("\n".join(x.decode("latin1") for x in b)) for b in bs if b is not None]


def observed(run, status, out, tok):
    ls = out.split(b"\n")
    if ls and ls[-1] == b"":
        ls.pop()
    pairs = []
    sep = b"||" if run.cmd == "incomestatement" else b":"
    if run.cmd in ("incomestatement", "stats"):
        for l in ls:
            a, s, b = l.partition(sep)
            if s and neat(b):
                pairs.append([list(neat(a)), list(neat(b))])
    return dict(run.spec(), status=status, lines=[list(neat(l)) for l in ls] if run.cmd != "print" else [], pairs=pairs, raw=raw_lines(out, tok), blocks=blocks(out, tok) if run.cmd == "print" else [])


def judge(ck, cases, plan, what, judged=True):
    """plan(case, projection) -> (runs, chains); chains: [(indices of runs, separators)]"""
    res = run_journals(ck, cases)
    binary = ck.cli()
    jobs, todo = [], []
    for c in cases:
        r, proj, _ = outcome(res[c.id])
        if r != "ok":
            ck.note(what + ": not opened")
            continue
        runs, chains = plan(c, proj)
        todo.append((c, proj, runs, chains))
        for k, x in enumerate(runs):
            jobs.append((c, "run", k, x.argv))
        if judged and any(x.cmd == "print" for x in runs):
            jobs.append((c, "full", 0, ["print"]))
        for k, ch in enumerate(chains):
            argv = []
            for n, i in enumerate(ch[0]):
                argv += (["--"] if n or ch[1] else []) + runs[i].argv
            jobs.append((c, "chain", k, argv + (["--"] if ch[2] else [])))
    with ThreadPoolExecutor(core.CPUS) as ex:
        outs = list(ex.map(lambda j: execute(binary, j[0].path(j[0].main), j[3], (j[2] + j[0].id) % 5 == 0), jobs))
    got = {(j[0].id, j[1], j[2]): (j[3], o) for j, o in zip(jobs, outs)}
    recs, by = [], {}
    for c, proj, runs, chains in todo:
        tok = Tokens()
        full = got.get((c.id, "full", 0))
        rec = dict(id=c.id, judge=judged, full=blocks(full[1][1], tok) if full else [], obs=enc.ledger(proj, {}, nosrc=True),
                   runs=[observed(x, got[c.id, "run", k][1][0], got[c.id, "run", k][1][1], tok) for k, x in enumerate(runs)],
                   chains=[dict(parts=[i + 1 for i in ch[0]], status=got[c.id, "chain", k][1][0], raw=raw_lines(got[c.id, "chain", k][1][1], tok)) for k, ch in enumerate(chains)])
        recs.append(rec)
        by[c.id] = c
        ck.note(what + ": commands", len(runs))
        ck.note(what + ": chains", len(chains))
        for x in runs:
            ck.note("%s: %s" % (what, x.cmd))
    if recs:
        v, st = journal.judge("ConfCLI", recs)
        ck.add_states(st)
        ck.traces += len(recs)
        for rec in recs:
            verdict, bad, why, _ = v[rec["id"]]
            c = by[rec["id"]]
            if verdict == "accepted":
                if len(ck.samples) < 3 and rec["runs"]:
                    a, o = got[c.id, "run", 0]
                    ck.samples.append(dict(files=files_text(c), command=a, printed=o[1].decode("utf8", "replace")))
            else:
                kind, k = bad[0].split() if bad != ["nonsense"] else ("run", "1")
                a, o = got[c.id, kind, int(k) - 1]
                ck.violation("%s %s: wrong output of %s (%s)" % (what, c.id, a, bad),
                             dict(files=files_text(c), command=a, status=o[0], printed=o[1].decode("utf8", "replace"), errors=o[2].decode("utf8", "replace")[-2000:], wrong=bad, specification=why))
    for c in cases:
        c.clean()
