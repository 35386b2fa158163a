"""The command muscular (C31): judged with spec/ConfMomentum.tla."""
from concurrent.futures import ThreadPoolExecutor
from . import cli, core, enc, journal
from .check import files_text, outcome, run_journals


def part(r, p):
    """One command line (arguments, what the specification is told) for a ledger."""
    times = [max(x["time"][0], -62_000_000_000) for x in p["prices"]] or [18000 * 86400]
    names = [c["name"] for c in p["currs"] if c["name"]]
    with_ = [p["currs"][x["cur"] - 1]["name"] for x in p["prices"] if x["cur"] > 0] or names
    args, spec = [], dict(b="", e="", wrong=False, months=3, days=0, n=1)
    opts = []
    if max(times) > cli.SAFE - 400 * 86400 or r.random() < 0.9:
        e = cli.date_arg(r, times)
        opts.append(["-e", e])
        spec["e"] = e
    if r.random() < 0.6:
        spec["n"] = r.choice([1, 2, 3, 3, 4, 6, 12, 25])
        opts.append(["-measures", str(spec["n"])])
    if r.random() < 0.75:
        m, d = r.choice([(1, 0), (2, 0), (12, 0), (13, 0), (0, 1), (0, 7), (0, 30), (0, 365), (1, 1), (1, 15), (0, 0), (6, 31), (100, 0)])
        t = "%dm%dd" % (m, d)
        if not d and r.random() < 0.5:
            t = "%dm" % m
        elif not m and r.random() < 0.5:
            t = "%dd" % d
        spec["months"], spec["days"] = m, d
        opts.append(["-measureperiod", t])
    if not spec["e"] and (spec["months"] * 31 + spec["days"]) * spec["n"] > 300:
        spec["n"] = 1
        opts = [o for o in opts if o[0] not in ("-measures", "-measureperiod")]
        spec["months"], spec["days"] = 3, 0
    if r.random() < 0.2:
        b = cli.date_arg(r, times)
        opts.append(["-b", b])
        spec["b"] = b
    if r.random() < 0.04:
        o = r.choice(["-period", "-measureperiod"])
        opts = [x for x in opts if x[0] != o] + [[o, r.choice(["x", "3", "", "m", "d", "3m1", "1d1m", "m1d", "1m1d1", "-", "1 m", "1w", "2md"])]]
        spec["wrong"] = True
    elif r.random() < 0.1:
        opts.append(r.choice([["-period", "2m"], ["-period", "10d"], ["-num", "2"], ["-divide", "2"], ["-batch"]]))
    r.shuffle(opts)
    ns = [r.choice(with_) if r.random() < 0.85 else r.choice(names + ["nothing"]) for _ in range(r.choice([1, 1, 2, 3, 4] * 4 + [10, 14]))] if with_ else []
    return sum(opts, []) + ns, dict(spec, b=enc.txt(spec["b"]), e=enc.txt(spec["e"]), names=[enc.txt(x) for x in ns])


def judge(ck, cases, what, runs=8):
    res = run_journals(ck, cases)
    binary = ck.cli("muscular")
    jobs, todo = [], []
    for c in cases:
        r, proj, _ = outcome(res[c.id])
        if r != "ok":
            ck.note(what + ": not opened")
            continue
        todo.append((c, proj))
        for k in range(runs):
            parts = [part(ck.rng, proj) for _ in range(ck.rng.choice([1, 1, 1, 2, 3]))]
            argv = []
            for i, (a, _) in enumerate(parts):
                argv += (["--"] if i else []) + a
            if argv and all(a for a, _ in parts):
                jobs.append((c, argv, [s for _, s in parts]))
    with ThreadPoolExecutor(core.CPUS) as ex:
        outs = list(ex.map(lambda j: cli.execute(binary, j[0].path(j[0].main), j[1], len(j[1]) % 5 == 0), jobs))
    recs, shown = [], {}
    for c, proj in todo:
        mine = [(j, o) for j, o in zip(jobs, outs) if j[0] is c]
        if not mine:
            continue
        shown[c.id] = mine
        rs = []
        for j, o in mine:
            ls = o[1].split(b"\n")[:-1]
            rs.append(dict(parts=j[2], status=o[0], lines=[list(l.lstrip(b" ")) for l in ls]))
        recs.append(dict(id=c.id, obs=enc.ledger(proj, {}, nosrc=True), runs=rs))
        ck.note(what + ": commands", len(mine))
    v, st = journal.judge("ConfMomentum", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    by = {c.id: c for c in cases}
    for rec in recs:
        verdict, bad, why, _ = v[rec["id"]]
        c, mine = by[rec["id"]], shown[rec["id"]]
        k = int(bad[0].split()[1]) - 1 if bad and bad[0].startswith("run") else 0
        d = dict(files=files_text(c), command=mine[k][0][1], status=mine[k][1][0], printed=mine[k][1][1].decode("utf8", "replace"), errors=mine[k][1][2].decode("utf8", "replace")[-1500:])
        if verdict == "accepted":
            if len(ck.samples) < 3:
                ck.samples.append(d)
        else:
            ck.violation("%s %s: wrong output of muscular %s" % (what, c.id, mine[k][0][1]), dict(d, wrong=bad, specification=why))
    for c in cases:
        c.clean()
