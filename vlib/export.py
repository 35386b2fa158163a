"""Exported ledgers (C14, C30): judged with spec/ConfExport.tla."""
import subprocess
from . import cli, core, enc, gen, journal, pgserver, sqldb, textdb
from .check import Tokens, files_text, outcome, run_journals


def ops(c, src=None):
    t = c.path("exported.journal")
    return [dict(op="open", slot="L", src=src or c.path(c.main)), dict(op="proj", slot="L"), dict(op="export", slot="L", file=t),
            dict(op="open", slot="M", src=t), dict(op="proj", slot="M"), dict(op="export", slot="M")]


def lines(text):
    if isinstance(text, str):
        text = text.encode("utf8", "surrogateescape")
    return journal.lines_of(text)


def judge(ck, cases, what, printed=0.2):
    res = run_journals(ck, cases, ops)

    def command(c):
        if ck.rng.random() < printed:
            ck.note(what + ": printed")
            st, o, _ = cli.execute(ck.cli(), c.path(c.main), ["print"])
            return o if st == "ok" else b"(failed)"
    exported(ck, cases, what, res, command)


def exported(ck, cases, what, res, command):
    """command(case): what a command printed (None: it was not run)."""
    recs, by = [], {}
    for c in cases:
        r, proj, _ = outcome(res[c.id])
        out = res[c.id]
        if r != "ok":
            ck.note(what + ": not opened")
            continue
        if len(out) < 3 or out[2]["res"] != "ok":
            ck.violation("%s %s: cannot be exported" % (what, c.id), dict(files=files_text(c), code=out))
            continue
        tok = Tokens()
        ls = lines(out[2]["text"])
        lines1 = [tok(repr(l)) for l in ls]
        same = lines1
        o = command(c)
        if o is not None:
            same = [tok(repr(l)) for l in lines(o)]
        ok = len(out) == 6 and out[3]["res"] == out[4]["res"] == out[5]["res"] == "ok"
        f = c.path("exported.journal")
        recs.append(dict(id=c.id, files=[dict(path=journal.comps(f), kind="ok", toolong=0, lines=[list(l) for l in ls])],
                         obs=dict(enc.ledger(proj, {}, nosrc=True), res="ok", logs=[]), groups=[], flat=0, mine=0, after=[],
                         obs2=enc.ledger(out[4], {}, nosrc=True) if ok else enc.EMPTY, res2="ok" if ok else out[-1]["res"],
                         lines=lines1, isprice=[l.startswith(b"P ") for l in ls], lines2=[tok(repr(l)) for l in lines(out[5]["text"])] if ok else [], printed=same))
        by[c.id] = c
    if recs:
        v, st = journal.judge("ConfExport", recs)
        ck.add_states(st)
        ck.traces += len(recs)
        for rec in recs:
            verdict, bad, why, _ = v[rec["id"]]
            c = by[rec["id"]]
            if verdict == "accepted":
                if len(ck.samples) < 3:
                    ck.samples.append(dict(files=files_text(c), exported=res[c.id][2]["text"][:4000]))
            else:
                ck.violation("%s %s: the exported journal is not the same: %s" % (what, c.id, ", ".join(bad)),
                             dict(files=files_text(c), failing=bad, specification=why, exported=res[c.id][2]["text"], again=res[c.id][5].get("text") if len(res[c.id]) > 5 else None, code=res[c.id][:2] + res[c.id][3:5]))
    for c in cases:
        c.clean()


def plain(s):
    """What the texts of databases have to be like for journals to hold them."""
    return " ".join(s.replace(";", ",").split())


def databases(ck, cases, what, printed=0.25):
    """Ledgers of text databases, and of PostgreSQL ones, converted to journals (C30)."""
    srv = pgserver.Server()
    try:
        scripts = []
        for c in cases:
            if isinstance(c, sqldb.Case):
                srv.dbs["c%d" % c.id] = c.database()
                folder = journal.Case(c.id, {}, [])
                folder.write()
                c.path, c.clean, c.files, c.built = folder.path, folder.clean, {}, c.text()
                c.src = srv.source("c%d" % c.id)
            else:
                c.write()
                c.src = c.source()
            scripts.append(dict(id=c.id, ops=ops(c, c.src)))
        res = core.run_cases(ck.harness(), scripts)
        for c in cases:
            for o in res[c.id]:
                for t in o.get("txns") or []:
                    for x in t["posts"]:
                        if not x["id"]:      # those of databases have none
                            x["auto"] = x["acct"] == len(o["accts"])

        def command(c):
            if ck.rng.random() < printed:
                ck.note(what + ": printed")
                p = subprocess.run([ck.cli("acc"), c.src], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=core.scratch())
                return p.stdout if p.returncode == 0 else b"(failed)"
        exported(ck, cases, what, res, command)
    finally:
        srv.shutdown()
        srv.server_close()
