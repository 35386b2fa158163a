"""The interactive commands (C32), with a stand-in for the library that draws tables: judged with spec/ConfTable.tla."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import cli, core, enc, journal, pgserver, sqldb
from .check import files_text, outcome


def execute(binary, argv, path, env=None):
    e = {k: v for k, v in os.environ.items() if k not in ("LEDGER_FILE",)}
    e["VERIF_TABLES"] = path
    e.update(env or {})
    try:
        p = subprocess.run([binary] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=e, cwd=core.scratch())
    except subprocess.TimeoutExpired:
        return "hang", [], b""
    tables = []
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                d, cols, rows = l.rstrip("\n").split("|")
                tables.append(dict(depth=int(d), rows=[[list(cli.neat(bytes.fromhex(x))) for x in row.split(",")] for row in rows.split(";") if row]))
        os.remove(path)
    return "ok" if p.returncode == 0 else "fail" if p.returncode == 1 else "crash", tables, p.stderr


def limits(r, p):
    times = [t for t in {t["time"][0] for t in p["txns"]} | {s["time"][0] for t in p["txns"] for s in t["posts"]} if len(str(cli.date(t).year)) == 4] or [0]
    k = dict(b="", e="", pivots=[])
    if r.random() < 0.45:
        k["b"] = cli.date_arg(r, times)
    if r.random() < 0.45:
        k["e"] = cli.date_arg(r, times)
    if r.random() < 0.3:
        k["pivots"] = cli.patterns(r, p, r.choice([1, 1, 2]))
    opts = [[o, v] for o, v in (("-b", k["b"]), ("-e", k["e"])) if v] + [["-pivot", v] for v in k["pivots"]]
    r.shuffle(opts)
    return sum(opts, []), dict(b=enc.txt(k["b"]), e=enc.txt(k["e"]), pivots=[enc.txt(x) for x in k["pivots"]])


FREE = dict(b=[], e=[], pivots=[])


def judge(ck, cases, what, runs=4):
    """Journals, text databases and PostgreSQL databases."""
    srv = pgserver.Server()
    try:
        scripts = []
        for c in cases:
            if isinstance(c, sqldb.Case):
                srv.dbs["c%d" % c.id] = c.database()
                folder = journal.Case(c.id, {}, [])
                folder.write()
                c.path, c.clean, c.files, c.built = folder.path, folder.clean, {}, c.text()
                c.src = srv.source("c%d" % c.id)
            else:
                c.write()
                c.src = c.source() if hasattr(c, "source") else c.path(c.main)
            scripts.append(dict(id=c.id, ops=[dict(op="open", slot="L", src=c.src), dict(op="proj", slot="L")]))
        res = core.run_cases(ck.harness(), scripts)
        tacc, ledger = ck.cli("tacc", "tables"), ck.cli("ledger", "tables")
        jobs, todo = [], []
        for c in cases:
            r, proj, _ = outcome(res[c.id])
            if r != "ok":
                ck.note(what + ": not opened")
                continue
            mine = [(c, tacc, [c.src], FREE)]
            if type(c) is journal.Case:
                mine.append((c, ledger, ["-f", c.src], FREE))
                for _ in range(runs):
                    a, s = limits(ck.rng, proj)
                    mine.append((c, ledger, ["-f", c.src] + a, s))
            jobs += mine
            todo.append((c, proj))
        with ThreadPoolExecutor(core.CPUS) as ex:
            outs = list(ex.map(lambda x: execute(x[1][1], x[1][2], os.path.join(core.scratch(), "tables%d" % x[0])), enumerate(jobs)))
    finally:
        srv.shutdown()
        srv.server_close()
    recs, by = [], {}
    for c, proj in todo:
        mine = [(j, o) for j, o in zip(jobs, outs) if j[0] is c]
        recs.append(dict(id=c.id, obs=enc.ledger(proj, {}, nosrc=True), runs=[dict(j[3], status=o[0], tables=o[1]) for j, o in mine]))
        by[c.id] = c, mine
        ck.note(what + ": tables", sum(len(o[1]) for _, o in mine))
        ck.note(what + ": rows", sum(len(t["rows"]) for _, o in mine for t in o[1]))
    if recs:
        v, st = journal.judge("ConfTable", recs)
        ck.add_states(st)
        ck.traces += len(recs)
        for rec in recs:
            verdict, bad, why, _ = v[rec["id"]]
            c, mine = by[rec["id"]]
            k = int(bad[0].split()[1]) - 1 if bad and bad[0].startswith("run") else 0
            j, o = mine[k]
            d = dict(files=files_text(c), command=[os.path.basename(j[1])] + j[2], status=o[0], errors=o[2].decode("utf8", "replace")[-1500:],
                     tables=[dict(depth=t["depth"], rows=[[bytes(x).decode("utf8", "replace") for x in row] for row in t["rows"]]) for t in o[1]])
            if verdict == "accepted":
                if len(ck.samples) < 3:
                    ck.samples.append(dict(d, tables=d["tables"][:4]))
            else:
                ck.violation("%s %s: wrong tables of %s" % (what, c.id, d["command"]), dict(d, wrong=bad, specification=why))
    for c in cases:
        c.clean()
