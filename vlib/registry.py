"""Registering backends, opening sources with them, and their optional operations (C21): judged with spec/ConfReg.tla."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import core, enc, journal

OPTIONAL = ["account", "inacct", "interval", "newaccount", "editaccount", "newtransaction", "edittransaction", "flush"]
NAMES = ["ledger", "txtdb", "postgres", "a", "a", "b", "b1", "x-y", ""]


def registry_case(r):
    nd = r.randint(1, 5)
    names = r.sample(sorted(set(NAMES)), r.randint(1, 5)) if r.random() < 0.8 else ["ledger", "txtdb", "postgres"]

    def source():
        k = r.random()
        if k < 0.3:
            return r.choice(["", "/abs/", "rel/x", "./c:", "x", "x/y:z", "é"]) + ("" if r.random() < 0.9 else "z")
        if k < 0.35:
            return ":x"
        n = r.choice(names + ["ledger", "txtdb", "other"])
        return (n.upper() if r.random() < 0.07 else n) + r.choice([":", ":/p", "://h/p", ":p?q=", ":p:q"])

    drivers = []
    for i in range(nd):
        drivers.append(dict(id=i + 1, mode=r.choice(["ok", "ok", "ok", "error", "spoiled"]), mask=r.randint(0, 255), inner=[], accts=[], txns=[]))
    for d in drivers[1:]:
        if r.random() < 0.3:
            d["inner"] = [dict(op="register", name=r.choice(names + ["inner"]), driver=1) for _ in range(r.randint(1, 2))]
            if r.random() < 0.4:   # only the first one, which opens nothing itself, can be opened from others
                d["inner"].append(dict(op="open", source="deep:"))
    conc = r.random() < 0.6
    threads = []
    if any(x["op"] == "open" for d in drivers for x in d["inner"]):
        threads.append([dict(op="register", name="deep", driver=1)])
    for _ in range(r.randint(2, 4) if conc else 1):
        t = []
        for _ in range(r.randint(1, 4) if conc else r.randint(2, 10)):
            if r.random() < 0.5:
                t.append(dict(op="register", name=r.choice(names), driver=r.choice([0] + list(range(1, nd + 1)) * 3)))
            else:
                t.append(dict(op="open", source=source()))
        threads.append(t)
    return dict(registry=dict(threads=threads, drivers=drivers))


def ask_case(r):
    asks = []
    for _ in range(12):
        ids = [None, "1", "2", "3"]
        accts = [dict(id=r.choice(ids), name="a%d" % i, code="") for i in range(r.randint(1, 4))]
        txns = []
        for i in range(r.randint(0, 5)):
            k = r.randint(2, 3)
            txns.append(dict(id=str(i), time=1000 * r.randint(0, 4), desc="t%d" % i, accs=[r.randint(1, len(accts)) for _ in range(k)]))
        mask = r.choice([0, 255, r.randint(0, 255), 1 << r.randint(0, 7), 255 ^ 1 << r.randint(0, 7)])
        ops = []
        for _ in range(14):
            o = dict(op=r.choice(OPTIONAL * 3 + ["close", "refresh"]), clone=r.random() < 0.2, fail=r.random() < 0.3)
            if o["op"] in ("account", "inacct"):
                o["id"] = r.choice(ids + ["9"])
            elif o["op"] == "interval":
                o["t"], o["t2"] = 1000 * r.randint(0, 4) + r.choice([0, 0, 1]), 1000 * r.randint(0, 4) - r.choice([0, 0, 1])
            elif "account" in o["op"]:
                o["acct"] = dict(id=r.choice(ids), name=r.choice("xyz"), code=r.choice(["", "c"]))
            elif "transaction" in o["op"]:
                o["txn"] = dict(id=r.choice(ids), time=r.randint(0, 9), desc=r.choice("xyz"), accs=[1] * r.randint(0, 3))
            ops.append(o)
        asks.append(dict(driver=dict(id=1, mode="ok", mask=mask, inner=[], accts=accts, txns=txns), ops=ops))
    return dict(asks=asks)


def run(binary, case, env=None):
    e = dict(os.environ, TZ="UTC")
    e.update(env or {})
    try:
        p = subprocess.run([binary], input=json.dumps(case).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=e)
    except subprocess.TimeoutExpired:
        return dict(res="hang")
    if p.returncode != 0:
        return dict(res="crash", err=p.stderr.decode("utf8", "replace")[-4000:])
    return json.loads(p.stdout)


def iid(i):
    return "nil" if i is None else "=" + i


def check(ck, cases, what, race=False, env=None):
    binary = ck.harness(race, "harness_reg")
    with ThreadPoolExecutor(core.CPUS) as ex:
        outs = list(ex.map(lambda c: run(binary, c, env), cases))
    recs, by = [], {}

    def add(rec, case, out):
        rec = dict(dict(events=[], modes=[], asks=[], accts=[], txns=[], provides=[]), id=ck.next_id(), **rec)
        recs.append(rec)
        by[rec["id"]] = (case, out)
    for c, o in zip(cases, outs):
        if o["res"] != "ok":
            ck.violation("%s: the code ends in %s" % (what, o["res"]), dict(case=c, code=o))
            continue
        if "registry" in c:
            evs = []
            for e in o["events"]:
                e = dict(e, name=enc.txt(e["name"]), source=enc.txt(e["source"]), asked=enc.txt(e.get("asked", "")), by=e.get("by", 0))
                evs.append(e)
            want = sum(len(t) for t in c["registry"]["threads"])
            if len(evs) < want:
                ck.violation("%s: only %d of %d things were done" % (what, len(evs), want), dict(case=c, code=o))
                continue
            add(dict(kind="registry", events=evs, modes=[d["mode"] for d in c["registry"]["drivers"]]), c, o)
            continue
        for a, b in zip(c["asks"], o["ledgers"]):
            d = a["driver"]
            if b["res"] != "ok":
                ck.violation("%s: a source is not opened" % what, dict(case=a, code=b))
                continue
            txns = {t["desc"]: t for t in d["txns"]}
            asks = []
            for q, x in zip(a["ops"], b["asks"]):
                args, k = [], q["op"]
                if k in ("account", "inacct"):
                    args = [iid(q["id"])]
                elif k == "interval":
                    args = [str(q["t"]), str(q["t2"])]
                elif "account" in k:
                    args = [iid(q["acct"]["id"]), q["acct"]["name"], q["acct"]["code"], "same"]
                elif "transaction" in k:
                    args = [iid(q["txn"]["id"]), str(q["txn"]["time"]), q["txn"]["desc"], str(len(q["txn"]["accs"])), "same"]
                asks.append(dict(op=k, args=args, fail=q["fail"], t=q.get("t", 0), t2=q.get("t2", 0), calls=x["calls"], answer=x["answer"], err=x["err"]))
            add(dict(kind="ask", asks=asks, accts=[iid(t["id"]) for t in d["accts"]] + ["nil"], txns=[dict(time=txns[n]["time"], accts=txns[n]["accs"]) for n in b["order"]],
                     provides=[m for i, m in enumerate(OPTIONAL) if d["mask"] >> i & 1]), a, b)
    if not recs:
        return
    v, st = journal.judge("ConfReg", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for rec in recs:
        verdict, bad, _, n = v[rec["id"]]
        ck.note(what)
        case, out = by[rec["id"]]
        if verdict == "accepted":
            if len(ck.samples) < 3:
                ck.samples.append(dict(kind=rec["kind"], observed=(out.get("events") or out.get("asks"))[:6]))
        else:
            ck.violation("%s: %s" % (what, "question %s: %s" % (bad[0], rec["asks"][int(bad[0]) - 1]) if bad and bad != ["nonsense"] else "no order of the operations explains what happened"),
                         dict(case=case, code=out))


def modelled(ck):
    """The programs that spec/MCRegistry.tla explores in every interleaving, done by real goroutines."""
    progs = ck.explored("MCRegistry", None if ck.quick() else "MCRegistry_two.cfg")
    cases = []
    for p in progs:
        text = lambda b: bytes(b).decode("ascii")
        threads = [[dict(op="register", name=text(t["name"]), driver=t["driver"]) if t["op"] == "register" else dict(op="open", source=text(t["source"])) for t in ts] for ts in p]
        drivers = [dict(id=i + 1, mode="ok", mask=0, inner=[], accts=[], txns=[]) for i in range(3)]
        drivers[1]["inner"] = [dict(op="register", name="ledger", driver=1)]
        drivers[2]["inner"] = [dict(op="open", source="a:"), dict(op="register", name="a", driver=1)]
        cases.append(dict(registry=dict(threads=threads, drivers=drivers)))
    check(ck, cases, "modelled programs")
