"""Questions about ledgers (C07, C09)."""
from . import core, enc, journal
from .check import run_journals, outcome, files_text


def judge_queries(ck, cases, make, what, module="ConfQuery"):
    """Opens the journals, asks what make(case, projection) says, and judges the answers."""
    how = lambda c: c.openers() if hasattr(c, "openers") else [dict(op="open", slot="L", src=c.path(c.main))]
    res = run_journals(ck, cases, lambda c: how(c) + [dict(op="proj", slot="L")])
    todo, opened = [], {}
    for c in cases:
        r, proj, _ = outcome(res[c.id][len(how(c)) - 1:])
        if r != "ok":
            ck.note(what + ": not opened")
            if r != "error":
                ck.violation("%s %s: opening ends in %s" % (what, c.id, r), dict(files=files_text(c), code=res[c.id]))
            continue
        qs = make(c, proj)
        if qs:
            opened[c.id] = (c, proj, qs)
            todo.append(dict(id=c.id, ops=how(c) + [q["op"] for q in qs]))
    ans = core.run_cases(ck.harness(), todo)
    recs = []
    for i, (c, proj, qs) in opened.items():
        out = ans[i] = ans[i][len(how(c)) - 1:] or ans[i]
        if len(out) != len(qs) + 1:
            ck.violation("%s %s: the queries end in %s" % (what, i, out[0]["res"]), dict(files=files_text(c), queries=[q["op"] for q in qs], code=out))
            continue
        recs.append(dict(id=i, obs=enc.ledger(proj, {}, nosrc=True), queries=[encode(q, a) for q, a in zip(qs, out[1:])]))
        ck.note(what + ": queries", len(qs))
    if recs:
        v, st = journal.judge(module, recs)
        ck.add_states(st)
        ck.traces += len(recs)
        for r in recs:
            c, proj, qs = opened[r["id"]]
            verdict, bad, _, _ = v[r["id"]]
            if verdict == "accepted":
                if len(ck.samples) < 3:
                    ck.samples.append(dict(files=files_text(c), queries=[q["op"] for q in qs][:5], answers=ans[c.id][1:6]))
            else:
                k = [int(b) - 1 for b in bad] if bad != ["nonsense"] else list(range(len(qs)))
                ck.violation("%s %s: wrong answer to %s" % (what, c.id, qs[k[0]]["op"]),
                             dict(files=files_text(c), wrong=[[qs[j]["op"], ans[c.id][j + 1]] for j in k]))
    for c in cases:
        c.clean()


def encode(q, a):
    o = q["op"]
    x = dict(kind=o["op"], res=a["res"])
    if "time" in o and not (o["op"] == "balance" and o["time"] == ZERO):   # which means the current balance
        x["time"] = enc.utm(o["time"])
    else:
        x["time"] = []
    if o["op"] == "balance":
        x.update(acct=o["i"], bal=enc.bal(a.get("bal", [])))
    elif o["op"] in ("inacct", "account"):
        x.update(acct=o["i"], txns=a.get("txns", []), found=a.get("acct", 0))
    elif o["op"] == "interval":
        x.update(time2=enc.utm(o["time2"]), txns=a.get("txns", []))
    elif o["op"] == "convert":
        x.update(val=[o["cur"], enc.big(o["amt"])], cur=o["cur2"], answer=enc.val(a["val"]) if "val" in a else [])
    return x


ZERO = -62135596800    # the zero time


def ledger_questions(r, n):
    """Balances at a time, transactions of accounts and of intervals."""
    def make(c, p):
        times = sorted({t["time"][0] for t in p["txns"]} | {s["time"][0] for t in p["txns"] for s in t["posts"] if s["time"]})
        near = sorted({x for t in times for x in (t - 1, t, t + 1)}) or [0]
        near += [near[0] - 86400 * 400, near[-1] + 86400 * 400]

        def when():
            if r.random() < 0.07:
                return r.choice([ZERO, ZERO, ZERO + 1, ZERO + 86400 * r.randint(1, 700), ZERO - 1, ZERO - 86400 * 366, 253402300799, 253402300800, 0])
            return r.choice(near) if r.random() < 0.85 else r.randint(near[0], near[-1])
        qs = []
        na = len(p["accts"])
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                q = dict(op="balance", slot="L", i=r.randint(1, na))
                if r.random() < 0.93:
                    q["time"] = when()
            elif k < 0.68:
                q = dict(op="inacct", slot="L", i=r.randint(1, na))
            elif k < 0.92:
                a, b = when(), when()
                if a > b and r.random() < 0.9:
                    a, b = b, a
                q = dict(op="interval", slot="L", time=a, time2=b)
            else:
                q = dict(op="account", slot="L", i=r.randint(1, na))
            qs.append(dict(op=q))
        return qs
    return make


def conversions(r, n):
    def make(c, p):
        refs = list(range(1, len(p["currs"]) + 1)) + ([-1] if p["dflt"] == -1 else [])
        if not refs:
            return []
        times = sorted({x["time"][0] for x in p["prices"]}) or [0]
        near = sorted({x for t in times for x in (t - 1, t, t + 1)})
        near += [(a + b) // 2 for a, b in zip(times, times[1:])]
        near += [a + (b - a) // 3 for a, b in zip(times, times[1:])]
        near += [min(near) - 86400 * 500, max(near) + 86400 * 500]
        qs = []
        for _ in range(n):
            k = r.random()
            a = r.choice([0, 1, -1, 10**8, 3 * 10**8, 100 * 10**8 + 1, r.randint(1, 10**6), r.randint(1, 10**12), r.randint(1, 10**17), 2**62])
            a = -a if r.random() < 0.3 else a
            c1 = r.choice(refs)
            c2 = r.choice(refs) if r.random() < 0.97 else 0
            qs.append(dict(op=dict(op="convert", slot="L", amt=a, cur=c1, cur2=c2, time=r.choice(near))))
        return qs
    return make


def price_journal(r, n, curs=None, style=None):
    """A journal of many prices between some currencies."""
    curs = curs or r.sample(["EUR", "USD", "GBP", "JPY", "AAPL", "X", "BTC"], r.randint(2, 6))
    style = style or r.choice(["any", "chain", "star", "tree", "two"])
    pairs = [(a, b) for a in curs for b in curs if a != b]
    if style == "chain":
        pairs = [(a, b) for a, b in zip(curs, curs[1:])] + ([(b, a) for a, b in zip(curs, curs[1:])] if r.random() < 0.5 else [])
    elif style == "star":
        pairs = [(curs[0], b) for b in curs[1:]] + [(b, curs[0]) for b in curs[1:]]
    elif style == "tree":
        pairs = [(curs[i], curs[r.randrange(i)]) for i in range(1, len(curs))]
        pairs += [(b, a) for a, b in pairs if r.random() < 0.5]
    elif style == "two":
        pairs = r.sample(pairs, min(len(pairs), 2))
    import datetime
    t = r.choice([datetime.datetime(2020, 1, 1, 12), datetime.datetime(1999, 12, 31, 12), datetime.datetime(1, 1, 1, 0), datetime.datetime(1600, 3, 1, 12),
                  datetime.datetime(2024, 2, 28, 12)])
    step = r.choice([86400, 3600, 1, 86400 * 30, 86400 * 365 * 40])
    lines = ["commodity 1.0000 %s" % c for c in r.sample(curs, len(curs))]
    for _ in range(n):
        k = r.choice([0, 0, 1, 1, 1, 2, 3, 10])
        if (t + datetime.timedelta(seconds=k * step)).year < 2900 if t.year < 2800 else False:
            t += datetime.timedelta(seconds=k * step)
        a, b = r.choice(pairs)
        v = r.choice([1, 10**8, 2 * 10**8, r.randint(1, 10**6), r.randint(10**7, 10**9), r.randint(1, 10**12), 33333333])
        if r.random() < 0.03:
            v = r.choice([0, -v, 9 * 10**18])
        if r.random() < 0.03:
            a = b
        i, d = divmod(abs(v), 10**8)
        d = ("%08d" % d).rstrip("0").ljust(4, "0")
        lines.append("P %s %s %s%d.%s %s" % (t.strftime("%%04d-%m-%d/%H:%M:%S") % t.year, a, "-" if v < 0 else "", i, d, b))
    if r.random() < 0.4:
        lines.append("D 1.0000 " + r.choice(curs))
    return lines


NAMES = ["aa", "bb", "cc", "dd", "ee"]


def modelled_prices(ck):
    """Price lists explored with spec/MCConvert.tla, and all the conversions with them."""
    lists = []
    for cfg, sample, longest in [("MCConvert", ck.size(50, 0), ck.size(3, 2)), ("MCConvert", ck.size(0, 300), 4), ("MCConvert_long", ck.size(12, 120), 8)]:
        if sample or not ck.quick():
            lists += ck.explored("MCConvert", cfg + ".cfg", env=dict(SAMPLE=str(sample), LONGEST=str(longest)))
    base = 7306 * 86400      # any day
    import datetime
    cases = []
    for l in lists:
        text = ["commodity 1.0 " + c for c in NAMES]
        for p in l:
            a = sum(d * 10000 ** i for i, d in enumerate(p["amt"][1:]))
            day = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=base + p["day"] * 86400)
            text.append("P %s %s %d.%08d %s" % (day.strftime("%Y-%m-%d"), NAMES[p["cur"] - 1], a // 10**8, a % 10**8, NAMES[p["to"] - 1]))
        cases.append(journal.Case(ck.next_id(), {"main.journal": text}, []))
    at = [base + d * 86400 + s for d, s in [(-5, 0), (2, 0), (2, 43200), (5, 1000), (50, 1)]]

    def ask(c, p):
        used = {n for n in NAMES if any(n in l.split() for l in c.files["main.journal"][len(NAMES):])}
        refs = [i + 1 for i, n in enumerate(NAMES) if n in used]
        qs = [dict(op=dict(op="convert", slot="L", amt=ck.rng.choice([10**12, -7 * 10**8, 1]), cur=a, cur2=b, time=t)) for a in refs for b in refs for t in at]
        return ck.rng.sample(qs, min(len(qs), 40))
    judge_queries(ck, cases, ask, "modelled prices")
