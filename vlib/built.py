"""Ledgers that are edited and computed again, and ledgers supplied by a backend (vbuilt, in the harness) in any order."""
import json
from . import enc, gen, journal
from .check import Tokens, bare, files_text

# what can go wrong in the data itself, however it is written
FAILS = ["unbalanced", "tiny", "three", "twoomitted", "omitmulti", "assertion", "assertcur", "omitassertion", "emptytxn", "overflow", "deadlock"]
MAX = gen.MAX


def chain(full):
    parts = full.split(":")
    return [":".join(parts[:i + 1]) for i in range(len(parts))]


class Data:
    """The data of a ledger: its transactions (time, postings) and the names of what they refer to."""

    def __init__(self, g, stream):
        self.g, self.r = g, g.r
        self.txns = [dict(time=e[1], posts=list(e[2]), src=None) for e in stream if e[0] == "txn"]
        self.prices = [e for e in stream if e[0] == "price"]
        self.nprices = len(self.prices)
        self.new = 0
        self.srcs = {}
        self.names = []
        for f in g.accts + [q.acct for t in self.txns for q in t["posts"]]:
            self.names += [x for x in chain(f) if x not in self.names]

    def name(self, c):
        return self.g.curs[c].name

    # -- both forms of things: for the harness and for the specification

    def named(self, v):
        return (dict(Cur=self.name(v[0]), Amt=v[1]), [enc.txt(self.name(v[0])), enc.big(v[1])]) if v else (None, [])

    def post(self, q, src):
        val = (q.cur, q.amt) if q.cur is not None and not q.omit else None
        price = (q.price[1], q.price[3]) if q.price else None
        (v, sv), (p, sp), (a, sa) = self.named(val), self.named(price), self.named(q.asrt)
        h = dict(Acct=q.acct, Val=v, Price=p, Asrt=a, Time=q.time)
        return h, dict(full=enc.txt(q.acct), time=enc.utm(q.time) if q.time is not None else [], val=sv, price=sp, asrt=sa, src=src)

    def txn(self, t, ident, desc):
        f = self.srcs.setdefault(ident, 1000 + len(self.srcs))
        both = [self.post(q, [f, i + 2]) for i, q in enumerate(t["posts"])]
        return (dict(Time=t["time"], Desc=desc, Posts=[b[0] for b in both]),
                dict(time=enc.utm(t["time"]), desc=enc.txt(desc), src=[f, 1], posts=[b[1] for b in both]))

    def ident(self, k):
        self.new += 1
        i = "%s%d" % (k, self.new)
        self.srcs[i] = 1000 + len(self.srcs)
        return i

    # -- edits

    def sort(self):
        self.txns.sort(key=lambda t: t["time"])

    def balance(self, acct, cur, upto):
        """What the account holds of a currency after the posting upto."""
        allp = [((q.time if q.time is not None else t["time"]), q) for t in sorted(self.txns, key=lambda t: t["time"]) for q in t["posts"]]
        allp.sort(key=lambda x: x[0])
        b = 0
        for _, q in allp:
            if q.acct == acct and q.cur == cur:
                b += q.amt
            if q is upto:
                break
        return b

    def span(self):
        ts = [t["time"] for t in self.txns] or [1500000000 // 86400 * 86400 + 43200]
        return min(ts), max(ts)

    def when(self):
        r = self.r
        lo, hi = self.span()
        k = r.random()
        if k < 0.35:
            return r.choice([t["time"] for t in self.txns] or [lo])
        if k < 0.5:
            return r.choice([lo - 86400, hi + 86400, lo - 400 * 86400, hi + 3600])
        return r.randint(lo - 5, hi + 5)

    def new_txn(self):
        g, r = self.g, self.r
        t = dict(time=self.when(), posts=g.txn_posts())
        for q in t["posts"]:
            if r.random() < 0.2:
                q.time = t["time"] + r.choice([86400, -86400, 3600, 86400 * 40, -86400 * 400, 0])
        if r.random() < 0.08 and t["posts"]:
            q = r.choice(t["posts"])
            q.amt += r.choice([1, -1, g.amount()])
        return t

    def renamed(self, old, new):
        to = lambda f: new + f[len(old):] if f == old or f.startswith(old + ":") else f
        self.names = [to(f) for f in self.names]
        self.g.accts = [to(f) for f in self.g.accts]
        for t in self.txns:
            for q in t["posts"]:
                q.acct = to(q.acct)

    def tree_edit(self):
        """Another account, or one elsewhere or with another name."""
        r = self.r
        k = r.random()
        if k < 0.35:
            to = r.choice(self.names + [""])
            name = r.choice(["N%d" % self.new, "Other %d" % self.new, "n"])
            full = to + ":" + name if to else name
            if full in self.names:
                return []
            i, code = self.ident("acct"), r.choice(["", "77"])
            self.names.append(full)
            self.g.accts.append(full)
            return [(dict(Op="newacct", ID=i, Name=name, Code=code, To=to),
                     dict(op="newacct", name=enc.txt(name), code=enc.txt(code), to=enc.txt(to), src=[self.srcs[i], 1]))]
        f = r.choice(self.names)
        if k < 0.8:
            to = r.choice([""] + [x for x in self.names if x != f and not x.startswith(f + ":")])
            full = (to + ":" if to else "") + f.rpartition(":")[2]
            if full in self.names:
                return []
            self.renamed(f, full)
            return [(dict(Op="move", Acct=f, To=to), dict(op="move", full=enc.txt(f), to=enc.txt(to)))]
        name = r.choice(["M%d", "another %d"]) % r.randint(0, 9)
        full = (f.rpartition(":")[0] + ":" if ":" in f else "") + name
        if full in self.names:
            return []
        self.renamed(f, full)
        return [(dict(Op="rename", Acct=f, Name=name), dict(op="rename", full=enc.txt(f), name=enc.txt(name)))]

    def edits(self):
        """One edit, or some that go together: [(for the harness, for the specification)]"""
        g, r = self.g, self.r
        if r.random() < 0.12:
            return self.tree_edit()
        k = r.random()
        full = [t for t in self.txns if t["posts"]]
        if k < 0.3 or not full:
            t = self.new_txn()
            i = self.ident("add")
            if r.random() < 0.2 and t["posts"]:
                self.txns.append(t)
                q = r.choice(t["posts"])
                if q.cur is not None and not q.omit:
                    c = q.cur if r.random() < 0.8 else r.randrange(len(g.curs))
                    v = self.balance(q.acct, c, q) + r.choice([0, 0, 0, 0, 1])
                    if abs(v) < MAX:
                        q.asrt = (c, v)
                        q.omit = q.omit or (c == q.cur and not q.price and r.random() < 0.4)
                self.txns.pop()
            front = r.random() < 0.25
            h, s = self.txn(t, i, r.choice(gen.WORDS))
            self.txns.insert(0 if front else len(self.txns), t)
            return [(dict(Op="add", ID=i, Txn=h, Front=front), dict(op="add", txn=s, front=front))]
        ti = self.txns.index(r.choice(full))
        t = self.txns[ti]
        pi = r.randrange(len(t["posts"]))
        q = t["posts"][pi]
        T, P = ti + 1, pi + 1

        def value(P, q):
            h, s = self.named(None if q.omit or q.cur is None else (q.cur, q.amt))
            return (dict(Op="value", T=T, P=P, Val=h), dict(op="value", t=T, p=P, val=s))
        if k < 0.38:
            self.txns.pop(ti)
            return [(dict(Op="remove", T=T), dict(op="remove", t=T))]
        if k < 0.55:
            same = [i for i, x in enumerate(t["posts"]) if i != pi and x.cur == q.cur and q.cur is not None and not x.price]
            if q.cur is None or q.price:
                return []
            out = []
            d = g.amount()
            if abs(q.amt + d) > MAX // 4:
                return []
            if same and r.random() < 0.9:
                j = r.choice(same)
                x = t["posts"][j]
                q.amt, x.amt = q.amt + d, x.amt - d
                if r.random() < 0.5:
                    x.omit = True
                out.append(value(j + 1, x))
                x.omit = False
            elif r.random() < 0.5:
                q.amt += d
            elif r.random() < 0.7:
                q.omit = True      # to be inferred again
            out.append(value(P, q))
            q.omit = False
            r.shuffle(out)
            return out
        if k < 0.63:
            x = self.when()
            t["time"] = x
            return [(dict(Op="time", T=T, Time=x), dict(op="time", t=T, time=enc.utm(x)))]
        if k < 0.73:
            q.time = r.choice([t["time"], t["time"] + 86400, t["time"] - 86400 * 3, self.when()])
            return [(dict(Op="ptime", T=T, P=P, Time=q.time), dict(op="ptime", t=T, p=P, time=enc.utm(q.time)))]
        if k < 0.8:
            q.acct = r.choice(g.accts)
            return [(dict(Op="acct", T=T, P=P, Acct=q.acct), dict(op="acct", t=T, p=P, full=enc.txt(q.acct)))]
        if k < 0.84:
            v = None
            if q.cur is not None and (not q.asrt or r.random() < 0.5):
                b = self.balance(q.acct, q.cur, q) + (0 if r.random() < 0.85 else r.choice([1, -1, g.amount()]))
                v = (q.cur, b) if abs(b) < MAX else None
            q.asrt = v
            h, s = self.named(v)
            return [(dict(Op="asrt", T=T, P=P, Val=h), dict(op="asrt", t=T, p=P, val=s))]
        if k < 0.9 and q.price:
            q.price = None
            return [(dict(Op="price", T=T, P=P, Val=None), dict(op="price", t=T, p=P, val=[]))]
        if k < 0.94:
            out = []
            c, a = r.randrange(len(g.curs)), g.amount() % 10**14
            for x in ([a, -a] if r.random() < 0.8 else [0]):
                n = gen.Post(r.choice(g.accts), c, x)
                if r.random() < 0.3:
                    n.time = self.when()
                n.omit = x < 0 and r.random() < 0.3
                i = self.ident("post")
                h, s = self.post(n, [self.srcs[i], 1])
                n.omit = False
                t["posts"].append(n)
                out.append((dict(Op="addpost", T=T, ID=i, Post=h), dict(op="addpost", t=T, post=s)))
            return out
        if k < 0.96:
            if q.amt != 0 and r.random() < 0.8:
                return []
            t["posts"].pop(pi)
            return [(dict(Op="delpost", T=T, P=P), dict(op="delpost", t=T, p=P))]
        if k < 0.985 and len(g.curs) > 1:
            a, b = r.sample(range(len(g.curs)), 2)
            x, i = self.when(), self.ident("nprice")
            v = abs(g.amount()) % 10**13
            h, s = self.named((b, v))
            self.nprices += 1
            return [(dict(Op="newprice", ID=i, Time=x, Cur=self.name(a), Val=h),
                     dict(op="newprice", time=enc.utm(x), cur=enc.txt(self.name(a)), val=s, src=[self.srcs[i], 1]))]
        if self.nprices and r.random() < 0.8:
            P = r.randint(1, self.nprices)
            self.nprices -= 1
            return [(dict(Op="delprice", P=P), dict(op="delprice", p=P))]
        return []

    def rounds(self, n):
        hs, ss = [], []
        for _ in range(n):
            es = [e for _ in range(self.r.choice([1, 1, 2, 3, 4])) for e in self.edits()]
            hs.append([e[0] for e in es])
            ss.append([e[1] for e in es])
            self.sort()
        return hs, ss


class Case:
    """A ledger, from a journal or supplied by a backend, and how it is edited."""

    def __init__(self, cid, seed, prof, groups, supplied=False, rounds=0, fails=None):
        self.id, self.groups = cid, groups
        prof = dict(prof, unnamed=0, declare_acct=1.0, declare_cur=1.0, late=0, fails=fails or FAILS)
        if not supplied:
            prof["fail"] = 0
        while True:
            g = self.g = gen.Gen(seed, prof)
            r = g.r
            stream, fail = g.stream()
            if not any(c.name[0] == "_" or " " in c.name for c in g.curs):
                break
            seed = str(seed) + "+"
        self.d = Data(g, stream)
        self.built = None
        self.files, self.case = {}, None
        if supplied:
            self.supply(stream)
        else:
            self.case = journal.Case(cid, {"main.journal": g.render(stream, fail)}, groups, note=g.what)
        self.hs, self.ss = self.d.rounds(rounds)
        self.clone = [r.random() < 0.25 for _ in self.hs] + [r.random() < 0.2]
        self.what = g.what

    def supply(self, stream):
        """The data in any order."""
        d, g, r = self.d, self.g, self.g.r
        names = []
        for f in g.accts + [q.acct for t in d.txns for q in t["posts"]]:
            names += [x for x in chain(f) if x not in names]
        r.shuffle(names)
        pos = {f: i + 1 for i, f in enumerate(names)}
        up = lambda f: pos[f.rpartition(":")[0]] if ":" in f else 0
        accts = [(f, up(f), r.choice(["", "", "%d" % r.randint(0, 99)]), [r.choice(gen.WORDS)] if r.random() < 0.2 else []) for f in names]
        if r.random() < 0.7:
            r.shuffle(d.txns)
        txns = [d.txn(t, "txn%d" % (i + 1), r.choice(gen.WORDS)) for i, t in enumerate(d.txns)]
        prices = list(d.prices)
        if r.random() < 0.7:
            r.shuffle(prices)
        dflt = r.choice([0, r.randint(1, len(g.curs))])
        d.srcs["acct"], d.srcs["price"] = 1, 2
        self.built = dict(
            Accts=[dict(Name=f.rpartition(":")[2], Parent=p, Code=c, Comments=k) for f, p, c, k in accts],
            Currs=[c.name for c in g.curs], Dflt=dflt, Txns=[t[0] for t in txns],
            Prices=[dict(Time=e[1], Cur=d.name(e[2]), Val=d.named((e[3], e[4]))[0]) for e in prices], Nil=r.random() < 0.4)
        A = lambda full: names.index(full) + 1

        def val(v):
            return [next(i + 1 for i, c in enumerate(g.curs) if enc.txt(c.name) == v[0]), v[1]] if v else []
        for t in txns:
            for q in t[1]["posts"]:
                q.update(acct=pos[enc.untxt(q.pop("full"))], val=val(q["val"]) or [0, [0]], price=val(q["price"]), asrt=val(q["asrt"]), comments=[])
            t[1]["comments"] = []
        self.spec = dict(
            accts=[dict(full=enc.txt(f), name=enc.txt(f.rpartition(":")[2]), parent=p, code=enc.txt(c), comments=[enc.txt(x) for x in k], src=[1, i + 1])
                   for i, (f, p, c, k) in enumerate(accts)],
            txns=[t[1] for t in txns],
            prices=[dict(time=enc.utm(e[1]), cur=e[2] + 1, val=[e[3] + 1, enc.big(e[4])], comments=[], src=[2, i + 1]) for i, e in enumerate(prices)],
            currs=[dict(enc.NOCUR, name=enc.txt(c.name), prec=2) for c in g.curs], dflt=dflt)
        d.sort()

    def ops(self):
        out = []
        slot = "L"
        if self.built is not None:
            out += [dict(op="build", text="k", spec=self.built), dict(op="open", slot="L", src="vbuilt:k")]
        else:
            out += [dict(op="open", slot="L", src=self.case.path(self.case.main))]
        for i, es in enumerate(self.hs):
            if self.clone[i]:
                out.append(dict(op="clone", slot=slot, to=slot + "c"))
                slot += "c"
            out += [dict(op="edit", slot=slot, spec=e) for e in es] + [dict(op="fill", slot=slot)]
        out.append(dict(op="proj", slot=slot))
        if self.clone[-1]:
            out.append(dict(op="clone", slot=slot, to=slot + "c"))
            slot += "c"
        out += [dict(op="fill", slot=slot), dict(op="proj", slot=slot)]
        return out

    def index(self):
        idx = dict(self.d.srcs)
        if self.case:
            idx.update(self.case.index())
        return idx

    def clean(self):
        if self.case:
            self.case.clean()


def judge(ck, cases, what):
    from . import core
    for c in cases:
        if c.case:
            c.case.write()
    scripts = {c.id: c.ops() for c in cases}
    res = core.run_cases(ck.harness(), [dict(id=i, ops=o) for i, o in scripts.items()])
    recs, by = [], {}
    tok = Tokens()
    for c in cases:
        out, ops = res[c.id], scripts[c.id]
        if c.case and (out[0]["res"] != "ok" or out[0].get("log")):
            ck.note(what + ": not as it was meant")   # other checks tell whether that is right
            c.clean()
            continue
        if any(o["res"] == "harness" and "unknown" in o["err"] for o in out):
            raise core.HarnessError("%s: %r" % (what, [o for o in out if o["res"] == "harness"][:3]))
        r, proj, idem = "ok", None, [0, 0]
        if len(out) != len(ops):
            r = out[-1]["res"]
        for i, o in enumerate(out[:-2]):
            if o["res"] != "ok":
                r = o["res"]
                if ops[i]["op"] not in ("open", "fill") and r == "error":
                    r = "crash"
                break
        if r == "ok":
            k = -4 if c.clone[-1] else -3
            proj = out[k]
            same = lambda x: tok(bare(dict(x, stray=0)))     # what is said of entries that were removed does not matter
            idem = [same(proj), same(out[-1]) if out[-2]["res"] == "ok" else -1]
        o = enc.ledger(proj, c.index()) if proj is not None else dict(enc.EMPTY)
        o.update(res=r, logs=[])
        rec = dict(id=c.id, files=c.case.spec_files() if c.case else [], obs=o, groups=c.groups + ["flat"], flat=idem[0], mine=idem[1], after=[], rounds=c.ss)
        if c.built is not None:
            rec["built"] = c.spec
        recs.append(rec)
        by[c.id] = c
    v, st = journal.judge("ConfJournal", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for c in by.values():
        verdict, groups, why, _ = v[c.id]
        ck.note("%s: %s" % (what, why))
        det = dict(files=files_text(c.case) if c.case else None, built=c.built, edits=c.hs)
        if verdict == "accepted":
            if len(ck.samples) < 3 and why == "ok" and c.hs:
                ck.samples.append(dict(det, outcome=why, compared=c.groups))
        else:
            ck.violation("%s %s: the code and the specification disagree in: %s" % (what, c.id, ", ".join(groups)),
                         dict(det, failing=groups, specification=why, code=res[c.id]))
        c.clean()
    return v


# what is compared of an edited or supplied ledger
ALL = ["outcome", "tree", "values", "annot", "lists", "balances", "running", "balanced", "times", "order", "written", "auto", "transfers", "currnames", "desc"]


class Modelled(Case):
    """A ledger that the exploration of spec/MCBook.tla started from, for the code to compute too."""

    NAMES, CURRS = ["A", "A:B"], ["c1", "c2"]

    def __init__(self, cid, ledger, groups, rng):
        self.id, self.groups, self.case, self.files = cid, groups, None, {}
        r, base = rng, 1500000000 // 86400 * 86400
        order = [0, 1] if r.random() < 0.7 else [1, 0]
        when = lambda d: base + d * 86400 if d >= 0 else None
        H = lambda v: dict(Cur=self.CURRS[v[0] - 1], Amt=v[1]) if v[0] else None
        S = lambda v: [v[0], enc.big(v[1])] if v[0] else []
        hs, ss, self.srcs = [], [], {}
        for i, t in enumerate(ledger):
            src = 1000 + i
            self.srcs["txn%d" % (i + 1)] = src
            hs.append(dict(Time=when(t["day"]), Desc="t", Posts=[
                dict(Acct=self.NAMES[q["acct"] - 1], Val=H(q["val"]), Price=H(q["price"]), Asrt=H(q["asrt"]), Time=when(q["day"])) for q in t["posts"]]))
            ss.append(dict(time=enc.utm(when(t["day"])), desc=enc.txt("t"), comments=[], src=[src, 1], posts=[
                dict(acct=order.index(q["acct"] - 1) + 1, time=enc.utm(when(q["day"])) if q["day"] >= 0 else [], val=S(q["val"]) or [0, [0]],
                     price=S(q["price"]), asrt=S(q["asrt"]), comments=[], src=[src, j + 2]) for j, q in enumerate(t["posts"])]))
        self.srcs["acct"] = 1
        parent = {0: 0, 1: order.index(0) + 1}
        self.built = dict(Accts=[dict(Name=self.NAMES[a].rpartition(":")[2], Parent=parent[a], Code="", Comments=[]) for a in order],
                          Currs=self.CURRS, Dflt=0, Txns=hs, Prices=[], Nil=r.random() < 0.4)
        self.spec = dict(accts=[dict(full=enc.txt(self.NAMES[a]), name=enc.txt(self.NAMES[a].rpartition(":")[2]), parent=parent[a], code=[], comments=[],
                                     src=[1, i + 1]) for i, a in enumerate(order)],
                         txns=ss, prices=[], currs=[dict(enc.NOCUR, name=enc.txt(c), prec=2) for c in self.CURRS], dflt=0)
        self.hs, self.ss, self.clone = [], [], [False]
        self.what = "model"

    def index(self):
        return dict(self.srcs)

    def write(self):
        pass

    def openers(self):
        return [dict(op="build", text="k", spec=self.built), dict(op="open", slot="L", src="vbuilt:k")]


def explored(ck, cfg, groups, sample=50, timeout=600, most=None):
    """Explores MCBook; the ledgers that it started from."""
    found = ck.explored("MCBook", "MCBook_%s.cfg" % cfg, timeout, dict(SAMPLE=str(sample)), most)
    return [Modelled(ck.next_id(), x, groups, ck.rng) for x in found]


def modelled(ck, cfg, groups, **kw):
    """Has the code compute those ledgers."""
    judge(ck, explored(ck, cfg, groups, **kw), "modelled ledger (%s)" % cfg)
