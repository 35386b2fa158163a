"""PostgreSQL databases (C29): generated, served by pgserver, and judged with spec/ConfSqlDB.tla."""
import datetime, json, re
from . import commands, core, enc, journal, pgserver
from .check import outcome
from .gen import COMPS, WORDS

ALL = ["outcome", "alive", "tree", "codes", "cents", "values", "annot", "lists", "balances", "running", "balanced", "times", "order", "desc", "transfers", "currnames"]
U = 10 ** 8


def some(x):
    return [] if x is None else [x]


class Case:
    def __init__(self, cid, accounts, transactions, splits, broken=None, missing=False, groups=ALL):
        self.id, self.accounts, self.transactions, self.splits = cid, accounts, transactions, splits
        self.broken, self.missing, self.groups = broken or {}, missing, groups

    def database(self):
        number = lambda v: None if v is None else v // U if v % U == 0 else v / U
        when = lambda t: (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%d %H:%M:%S").rjust(19, "0")
        return pgserver.Database([(i, p, n, c) for i, p, n, c in self.accounts], [(i, when(t), d) for i, t, d in self.transactions],
                                 [(t, a, number(v)) for t, a, v in self.splits], self.broken)

    def spec(self):
        text = lambda s: [] if s is None else [enc.txt(s)]
        return dict(accounts=[dict(id=i, parent=some(p), name=text(n), code=text(c)) for i, p, n, c in self.accounts],
                    transactions=[dict(id=i, time=enc.utm(t), desc=text(d)) for i, t, d in self.transactions],
                    splits=[dict(txn=t, acct=a, amount=[] if v is None else [enc.big(v)]) for t, a, v in self.splits],
                    broken=self.broken or {"none": 0}, missing=self.missing)

    def text(self):
        return dict(account=self.accounts, transaction=self.transactions, split=[[t, a, None if v is None else "%d/10^8" % v] for t, a, v in self.splits], broken=self.broken)


def amount(r, big):
    """pgserver is exact with whole numbers, and with others below 2^53 units."""
    k = r.random()
    if big:
        return r.choice([1, -1]) * r.randint(1, r.choice([30000000000, 92233720368, 10 ** r.randint(9, 14)])) * U
    if k < 0.25:
        return r.randint(-1000, 1000) * U
    if k < 0.7:
        return r.randint(-10 ** 8, 10 ** 8) * (U // 100)
    return r.randint(-10 ** 7, 10 ** 7) * 10 ** r.randint(0, 5)


def generate(r, cid, fails=0.15, wrong=0.1, big=0.05, accts=(1, 9), txns=(0, 10)):
    ids = r.sample(range(1, 40), r.randint(*accts))
    if r.random() < 0.1:
        ids[-1] = 2147483647
    accounts = []
    for k, i in enumerate(ids):
        parent = r.choice(ids[:k]) if k and r.random() < 0.6 else None     # listed before, or not, as the identifiers fall
        accounts.append([i, parent, r.choice(COMPS) + (str(k) if r.random() < 0.6 else ""), r.choice([None, None, "", "A1", "30.2", "k d", "é"])])
    names = {}
    for a in accounts:       # no two accounts have the same name
        p = names.get((a[1], a[2]))
        if p:
            a[2] += "_%d" % a[0]
        names[a[1], a[2]] = True
    r.shuffle(accounts)
    tids = r.sample(range(1, 60), r.randint(*txns))
    t0 = r.choice([0, 86400 * 10957, 86400 * 18000, -86400 * 3000])
    transactions, splits = [], []
    for i in tids:
        t = t0 + r.choice([r.randint(0, 9) * 86400, r.randint(0, 9) * 86400 + r.randint(0, 86399)])
        transactions.append([i, t, r.choice([None, ""] + WORDS) if r.random() < 0.9 else r.choice(WORDS) + ": ;x"])
        n = r.choice([1, 2, 2, 2, 3, 4]) if r.random() > 0.05 else 0
        large = r.random() < big
        vs = [amount(r, large) for _ in range(max(n - 1, 0))]
        if n:
            vs.append(-sum(vs))
            if r.random() < fails * 0.3:
                vs[-1] += r.choice([1, -1, U, 5000] if not large else [U, -U])
            if r.random() < 0.1:
                vs += [0] * r.randint(1, 2)
            r.shuffle(vs)
        splits += [[i, r.choice(ids), v] for v in vs]
    if r.random() < 0.5:     # rows of different transactions in any order
        r.shuffle(splits)
    c = Case(cid, accounts, transactions, splits)
    if r.random() < wrong:
        k = r.randrange(6)
        if k == 0 and splits:
            r.choice(splits)[2] = None
        elif k == 1:
            r.choice(accounts)[2] = None
        elif k == 2:
            a = r.choice(accounts)
            b = a
            for _ in range(r.randint(0, 2)):      # of one of its descendants, or of itself
                b = next((x for x in accounts if x[1] == b[0]), b)
            a[1] = b[0]
        elif k == 3:
            c.broken = {r.choice(["account", "split", "transaction"]): r.choice([-1, 0, 1, 2, 5])}
        elif k == 4:
            c.missing = True
        elif splits:
            r.choice(splits)[2] = r.choice([1, -1]) * r.choice([92233720369, 10 ** 12, 10 ** 17]) * U
    return c


def judge(ck, cases, what, ops=None, jobs=None):
    srv = pgserver.Server()
    try:
        for c in cases:
            if not c.missing:
                srv.dbs["c%d" % c.id] = c.database()
        ops = ops or (lambda s: [dict(op="open", slot="L", src=s), dict(op="proj", slot="L"), dict(op="print", slot="L"), dict(op="flush", slot="L"), dict(op="clone", slot="L", to="C"),
                                 dict(op="fill", slot="C"), dict(op="print", slot="C"), dict(op="fill", slot="L"), dict(op="proj", slot="L"), dict(op="close", slot="L")])
        res = core.run_cases(ck.harness(), [dict(id=c.id, ops=ops(srv.source("c%d" % c.id))) for c in cases])
        done = commands.run(ck, cases, lambda c: jobs(c, srv.source("c%d" % c.id)), {c.id: outcome(res[c.id])[2] for c in cases}) if jobs else {}
    finally:
        srv.shutdown()
        srv.server_close()
    recs = []
    for c in cases:
        out, proj, log = outcome(res[c.id])
        after = [x["res"] for x in res[c.id][1:]] if out == "ok" else []
        if out == "ok" and json.dumps(res[c.id][8]) != json.dumps(proj):
            after.append("changed")      # by recomputing
        o = dict(enc.EMPTY)
        if out == "ok":
            for t in proj["txns"]:
                for x in t["posts"]:
                    x["auto"] = x["acct"] == len(proj["accts"])
            o = enc.ledger(proj, {}, nosrc=True)
            number = lambda s: [0, int(s)] if re.fullmatch(r"\d{1,10}", s) else [0, -1]
            for k in ("accts", "txns"):
                for x, y in zip(o[k], proj[k]):
                    x["src"] = number(y["id"])
        recs.append(dict(id=c.id, db=c.spec(), obs=dict(o, res=out, logs=[]), groups=c.groups, flat=0, mine=0, after=after))
        if jobs:
            recs[-1].update(commands.fields(done[c.id]))
    v, st = journal.judge("ConfSqlDB", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for c in cases:
        verdict, bad, why, _ = v[c.id]
        ck.note("%s: %s" % (what, why))
        if verdict == "accepted":
            if len(ck.samples) < 3 and why == "ok":
                ck.samples.append(dict(tables=c.text(), outcome=why, compared=c.groups))
        else:
            ck.violation("%s %s: the code and the specification disagree in: %s" % (what, c.id, ", ".join(bad)),
                         dict(tables=c.text(), failing=bad, specification=why, code=res[c.id], **(dict(commands=commands.details(done[c.id])) if jobs else {})))


IDS = [7, 2, 9, 4]


def modelled(ck):
    """Small databases, as spec/MCSqlDB.tla explores them."""
    found = ck.explored("MCSqlDB", None, 700, dict(SAMPLE=str(ck.size(150, 3000))))
    if not ck.quick():
        found += ck.explored("MCSqlDB", "MCSqlDB_all.cfg", 700, dict(SAMPLE="0"), 3000)
    cases = []
    for na, nt, parents, times, splits in found:
        text = lambda i: None if i == 0 else chr(97 + i)
        cases.append(Case(ck.next_id(), [[IDS[i], IDS[parents[i] - 1] if parents[i] else None, chr(65 + i), "x" if i == 1 else None] for i in range(na)],
                          [[IDS[i], pgtime(times[i]), text(i)] for i in range(nt)],
                          [[IDS[s["txn"] - 1], IDS[s["acct"] - 1], None if s["amount"] == 99 else s["amount"]] for s in splits]))
    judge(ck, cases, "modelled databases")


def pgtime(day):
    return enc.EPOCH + day * 86400
