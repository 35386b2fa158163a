"""Values, balances and dates (C13, C24, C27): judged with spec/ConfValue.tla."""
from . import core, enc, journal

MAX = 2**63 - 1


def number(r):
    k = r.random()
    if k < 0.25:
        return r.choice([0, 1, -1, 9, 10, 99999999, 100000000, 100000001, -99999999, 10**11, 10**11 - 1, 10**14, -10**11, MAX, -MAX, -MAX - 1, 999 * 10**8, 1000 * 10**8, 123456 * 10**8, 10**15, -10**14])
    n = r.randrange(10 ** r.randint(1, 18)) * r.choice([1, 1, 10, 10**4, 10**8])
    n = min(n, MAX)
    return -n if r.random() < 0.4 else n


NAMES = ["", "EUR", "$", "€", "US dollar", "x", "£", "a-b", "kg", "日本"]


def currency(r, nil=0.05):
    c = dict(Name=r.choice(NAMES), Thou=r.choice(["", "", ",", ".", "'", " ", "_", "’", "\u202f"]), Dec=r.choice(["", ".", ",", ".", "·", "'"]),
             Before=r.random() < 0.5, Nospace=r.random() < 0.5, Prec=r.randint(0, 8))
    if r.random() < nil:
        c = dict(Name="", Thou="", Dec="", Before=False, Nospace=False, Prec=0, Nil=True)
    return c


def cur_spec(c):
    return dict(name=enc.txt(c["Name"]), thou=enc.txt(c["Thou"]), dec=enc.txt(c["Dec"]), before=c["Before"], nospace=c["Nospace"], prec=c["Prec"])


def shows(r, n):
    ops, items = [], []
    for _ in range(n):
        c, a = currency(r), number(r)
        ops.append(dict(op="show", cu=c, amt=str(a)))
        items.append((dict(op="show", cu=cur_spec(c), amt=enc.big(a)), lambda o: dict(plain=[enc.txt(x) for x in o["plain"]], full=[enc.txt(x) for x in o["full"]])))
    return dict(op="values", items=ops), items


def lists(r, n):
    curs = [currency(r, 0.2) for _ in range(6)]
    ops, items = [], []
    for _ in range(n):
        vals = [(r.randint(1, 6), number(r)) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        ops.append(dict(op="list", vals=[[str(c), str(a)] for c, a in vals]))
        items.append((dict(op="list", vals=[[c, enc.big(a)] for c, a in vals], curs=[cur_spec(c) for c in curs]), lambda o: dict(text=enc.txt(o["text"]))))
    return dict(op="values", curs=curs, items=ops), items


def sums(r, n, nregs):
    nc = r.randint(1, 5)
    curs = [currency(r, 0) for _ in range(nc)]
    if r.random() < 0.3:
        curs[r.randrange(nc)] = dict(Nil=True)
    small = r.random() < 0.6
    pool = [r.choice([1, 2, 3]) if small else abs(number(r)) // 64 + 1 for _ in range(3)]
    ops, items = [], []
    seen = lambda o: dict(seen=[[[c, enc.big(a)] for c, a in b] for b in o["seen"]])
    for _ in range(n):
        k = r.choice(["add", "add", "add", "sub", "sub", "addb", "subb", "dup"])
        x = dict(op=k, r=r.randint(1, nregs), r2=r.randint(1, nregs))
        y = dict(x)
        if k in ("add", "sub"):
            c, a = r.randint(1, nc), r.choice([1, -1]) * r.choice(pool + [0])
            x["vals"] = [[str(c), str(a)]]
            y["v"] = [c, enc.big(a)]
        ops.append(x)
        items.append((y, seen))
    return dict(op="values", curs=curs, items=ops, n=nregs), items


def date_text(r):
    k = r.random()
    y, m, d = r.choice([r.randint(0, 9999), r.randint(1890, 2110), r.choice([1900, 2000, 2100, 2400, 1600, 4, 0, 100, 400, 9999, 1])]), r.randint(1, 12), r.randint(1, 31)
    if r.random() < 0.15:
        m, d = 2, r.choice([28, 29, 30])
    sep = lambda: r.choice("-/.:_") if r.random() < 0.5 else s0
    s0 = r.choice("-/.:_")
    t = "%04d%s%02d%s%02d" % (y, sep(), m, sep(), d)
    if r.random() < 0.5:
        H = r.randint(0, 24)
        t += sep() + ("%02d" % H if r.random() < 0.6 else "%d" % H)
        if r.random() < 0.7:
            t += sep() + "%02d" % r.choice([0, 59, r.randint(0, 60)])
            if r.random() < 0.7:
                t += sep() + "%02d" % r.choice([0, 59, r.randint(0, 60)])
                if r.random() < 0.1:
                    t += sep() + "00"
    if k < 0.35:   # spoil it
        t = list(t)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randint(0, len(t) - 1)
            z = r.random()
            if z < 0.35:
                t[i] = r.choice("0123456789-/.:_ T,+x")
            elif z < 0.6:
                del t[i]
            elif z < 0.85:
                t.insert(i, r.choice("0123456789-/.:_ T,+Z"))
            else:
                t = t[:i]
            if not t:
                break
        t = "".join(t)
    elif k < 0.42:
        t = r.choice(["", "2020", "2020-01", "2020-1-2", "20-01-02", "2020-01-02 12:00", "2020-01-02T12:00:00", "2020-01-02-", "-2020-01-02", "12020-01-02",
                      "2020-01-02-12-", "2020-01-02-12-00-00-", "2020-13-01", "2020-00-01", "2020-01-00", "20200102", "2020--01-02", "2020-01-02-123", "２０２０-01-02",
                      "2020-01-02-1-00", "2020-01-02-1-00-00", "2020-01-02-01-0", "2020-01-02-24", "2020-01-02-24-00", "2020-01-02-23-60", "2020-01-02-23-59-60",
                      "2020-01-02 ", " 2020-01-02", "0000-01-01", "0000-02-29", "0001-01-01/00:00:00", "9999-12-31/23:59:59", "2020-01-02-00", "2020-01-02-0"])
    return t


def dates(texts):
    return dict(op="values", items=[dict(op="date", text=t) for t in texts]), \
        [(dict(op="date", text=enc.txt(t)), lambda o: dict(res=o["res"], time=enc.tm(o["time"]) if "time" in o else [])) for t in texts]


def judge(ck, work, what, regs=0):
    """work: [(operation of the harness, items of the specification)]"""
    ids = [ck.next_id() for _ in work]
    res = core.run_cases(ck.harness(), [dict(id=i, ops=[w[0]]) for i, w in zip(ids, work)])
    recs, by = [], {}
    for i, (op, items) in zip(ids, work):
        o = res[i][0]
        if o["res"] != "ok" or len(o["items"]) != len(items):
            ck.violation("%s %d: the code ends in %s" % (what, i, o["res"]), dict(op=op, code=o))
            continue
        recs.append(dict(id=i, regs=op.get("n", 0), items=[dict(x, **f(y)) for (x, f), y in zip(items, o["items"])]))
        by[i] = (op, o["items"])
    if not recs:
        return
    v, st = journal.judge("ConfValue", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for rec in recs:
        verdict, bad, _, n = v[rec["id"]]
        op, out = by[rec["id"]]
        ck.note(what, n)
        if verdict == "accepted":
            if len(ck.samples) < 3:
                ck.samples.append(dict(items=[dict(asked=a, code=b) for a, b in zip(op["items"][:3], out[:3])]))
        else:
            k = int(bad[0]) - 1 if bad != ["nonsense"] else 0
            ck.violation("%s: %s" % (what, op["items"][k]), dict(item=op["items"][k], code=out[k], before=op["items"][:k], currencies=op.get("curs")))


def modelled_sums(ck):
    """Operations with balances explored with spec/MCBalance.tla: all the short histories, and some long ones."""
    for cfg, nregs, nc, sample, longest, most in [("MCBalance", 2, 2, 0, ck.size(2, 3), None), ("MCBalance_long", 3, 3, ck.size(60, 2500), 12, None)]:
        hs = ck.explored("MCBalance", cfg + ".cfg", env=dict(SAMPLE=str(sample), LONGEST=str(longest)), most=most)
        work = []
        seen = lambda o: dict(seen=[[[c, enc.big(a)] for c, a in b] for b in o["seen"]])
        for h in hs:
            ops, items = [], []
            for k, a, b, c, n in h:
                x = dict(op=k, r=a, r2=b)
                y = dict(x)
                if k in ("add", "sub"):
                    x["vals"] = [[str(c), str(n)]]
                    y["v"] = [c, enc.big(n)]
                ops.append(x)
                items.append((y, seen))
            work.append((dict(op="values", curs=[currency(ck.rng, 0) for _ in range(nc)], items=ops, n=nregs), items))
        judge(ck, work, "modelled operations with balances")


def modelled_shows(ck):
    """Amounts and currencies explored with spec/MCShow.tla."""
    found = ck.explored("MCShow", env=dict(SAMPLE=str(ck.size(500, 0))), most=ck.size(500, 15000))
    txt = lambda t: bytes(t).decode()
    work = []
    for i in range(0, len(found), 50):
        ops, items = [], []
        for x in found[i:i + 50]:
            a = x["amt"][0] * sum(d * 10000 ** k for k, d in enumerate(x["amt"][1:]))
            c = x["cu"]
            h = dict(Name=txt(c["name"]), Thou=txt(c["thou"]), Dec=txt(c["dec"]), Before=c["before"], Nospace=c["nospace"], Prec=c["prec"])
            ops.append(dict(op="show", cu=h, amt=str(a)))
            items.append((dict(op="show", cu=c, amt=x["amt"]), lambda o: dict(plain=[enc.txt(t) for t in o["plain"]], full=[enc.txt(t) for t in o["full"]])))
        work.append((dict(op="values", items=ops), items))
    judge(ck, work, "modelled texts of values")
