"""Text databases (C19): generated, and judged with spec/ConfTextDB.tla."""
import datetime, json, os, random
from . import commands, core, enc, journal
from .check import files_text, outcome, run_journals
from .gen import COMPS, WORDS

ALL = ["outcome", "tree", "codes", "cents", "values", "annot", "lists", "balances", "running", "balanced", "times", "order", "desc", "transfers", "currnames"]


class Case(journal.Case):
    """A directory with the files accounts and transactions."""

    def __init__(self, cid, files, groups, dirs=(), **kw):
        super().__init__(cid, files, groups, main="accounts", dirs=dirs, **kw)

    def source(self):
        return "txtdb:" + self.root

    def index(self):
        return {self.path("accounts"): 1, self.path("transactions"): 2}


def ops(c):
    return [dict(op="open", slot="L", src=c.source()), dict(op="proj", slot="L")]


def use_ops(c):
    return ops(c) + [dict(op="print", slot="L"), dict(op="clone", slot="L", to="C"), dict(op="proj", slot="C"), dict(op="fill", slot="C"), dict(op="print", slot="C"),
                     dict(op="fill", slot="L"), dict(op="proj", slot="L"), dict(op="flush", slot="L"), dict(op="close", slot="L")]


def money(r, c, sign="-"):
    """A text for c hundredths (c >= 0)."""
    a, b = divmod(c, 100)
    k = r.random()
    if b == 0 and k < 0.3:
        return "%d" % a
    if b == 0 and k < 0.35:
        return "%d." % a
    if b % 10 == 0 and k < 0.5:
        return "%d.%d" % (a, b // 10)
    if k > 0.97 and a == 0:
        return ".%02d" % b
    if k > 0.94:
        return "00%d.%02d" % (a, b)
    if k > 0.9:
        return "%d.%02d%s" % (a, b, r.choice(["0", "00", "000000", "1", "4", "49"] + (["499", "00000001", "4999"] if a < 10**6 else [])))   # near the middle, what a float64 is able to tell
    if k > 0.87 and c > 0:
        a, b = divmod(c - 1, 100)
        return "%d.%02d%s" % (a, b, r.choice(["9", "51", "6"] + (["99999", "501"] if a < 10**6 else [])))
    return "%d.%02d" % (a, b)


def signed(r, c):
    return ("-" if c < 0 else r.choice("+++-") if c == 0 else "+") + money(r, abs(c))


class Maker:
    def __init__(self, r, txns=(1, 9), accts=(1, 9), wrong=0.3, fails=0.15, check=0.25, dated=0.15, order=0.05, big=0.05, none=0.05, bad=None):
        self.r = r
        self.p = dict(txns=txns, accts=accts, wrong=wrong, fails=fails, check=check, dated=dated, order=order, big=big, none=none)

    def account_lines(self):
        r, out, self.accts, names = self.r, [], [], set()
        ids = r.sample(range(0, 60), 20) + [-3, 999999999]
        r.shuffle(ids)
        byid = {}
        for _ in range(r.randint(*self.p["accts"])):
            i = ids.pop()
            name = r.choice(COMPS) if r.random() < 0.95 else ""
            parent = r.choice(list(byid) + [""] * (1 + len(byid) // 2)) if byid else ""
            full = (byid[parent] + ":" if parent != "" else "") + name
            if full in names:
                name += str(len(out))
                full += str(len(out))
            names.add(full)
            ptext = str(parent) if parent != "" else r.choice(["", "", "x", "61", "-1", " "])
            code = r.choice(["", "", "", "A1", "30.2", "k d", "é"])
            itext = ("+" if i >= 0 and r.random() < 0.05 else "") + ("0" * r.randint(1, 3) if i >= 0 and r.random() < 0.05 else "") + str(i)
            out.append("%s:%s:%s:%s:%s:%s" % (itext, r.choice(["", "x", "1"]), r.choice(["", "y"]), name, code, ptext))
            byid[i] = full
            self.accts.append(i)
            if r.random() < 0.04 and len(byid) > 1:   # used again for another account
                ids.append(i)
        # before the account that it names
        if r.random() < 0.3 and len(out) > 2:
            k = r.randrange(len(out))
            ids_left = [x for x in ids if x not in byid]
            if ids_left:
                out.insert(k, "%d:::late%d::%d" % (ids_left[0], k, r.choice(self.accts)))
                self.accts.append(ids_left[0])
        return out

    def bad_account(self):
        r = self.r
        return r.choice(["", "x", "1:2:3:4:5", "1:2:3:4:5:6:7", ":::::", "a:::b::", "7x:::b::", " 7:::b::", "7 :::b::", "1.5:::c::", "99999999999999999999:::c::", "# comment", "::::::::", "0x5:::d::"])

    def bad_posting(self, when):
        r = self.r
        a = r.choice(self.accts) if self.accts else 1
        w = self.when(when)
        return r.choice(["", "x", "::::::", ":::::", "1:%s:d::%s:+5.00" % (w, a), "1:%s:d::%s:+5.00::" % (w, a), "1:%s:d::%s:5.00:" % (w, a), "1:%s:d::%s:=5.00:" % (w, a), "1:%s:d::%s: +5.00:" % (w, a),
                         "1:%s:d::%s:+:" % (w, a), "1:%s:d::%s:+x:" % (w, a), "1:%s:d::%s:+1,5:" % (w, a), "1:%s:d::%s:+1.2.3:" % (w, a), "1:%s:d::%s:+99999999999999:" % (w, a),
                         "1:%s:d::%s:+100000000000.00:" % (w, a), "1:%s:d::61:+5.00:" % w, "1:%s:d::x:+5.00:" % w, "1:%s:d:::+5.00:" % w, "1:%s:d:: %s:+5.00:" % (w, a), "1:%s:d::%s :+5.00:" % (w, a),
                         "1:2020-13-01:d::%s:+5.00:" % a, "1:2021-02-29:d::%s:+5.00:" % a, "1:2020-01-32:d::%s:+5.00:" % a, "1:yesterday:d::%s:+5.00:" % a, "1::d::%s:+5.00:" % a,
                         "1:2020-01-01 25.00:d::%s:+5.00:" % a, "1:2020-01-01 10.60:d::%s:+5.00:" % a, "1:2020/01/01:d::%s:+5.00:" % a, "1:2020-1-01:d::%s:+5.00:" % a, "1:20-01-01:d::%s:+5.00:" % a,
                         "1:2020-01-01x:d::%s:+5.00:" % a, "1:2020-01-01 10-30:d::%s:+5.00:" % a, "1:%s:d::%s::x" % (w, a), "1:%s:d::%s::+" % (w, a), "1:%s:d::%s::1,0" % (w, a), "1:%s:d::%s::+99999999999999" % (w, a)])

    def when(self, t):
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
        s = d.strftime("%Y-%m-%d") if t % 86400 == 0 and self.r.random() < 0.9 else d.strftime("%Y-%m-%d %H.%M")
        return s if self.r.random() < 0.95 else self.r.choice(["%s ", " %s", "\t%s "]) % s

    def amount(self):
        r = self.r
        if r.random() < self.p["big"]:
            return r.randint(-9000000000000, 9000000000000)
        return r.choice([r.randint(-100, 100), r.randint(-100000, 100000), r.randint(-50, 50) * 100, r.randint(-9999999, 9999999)])

    def posting_lines(self):
        r, p, out = self.r, self.p, []
        t = r.choice([0, 86400 * 10957, 86400 * 18000, -86400 * 3000]) + r.randint(0, 400) * 86400
        bal = {}       # of every account, in the order of dates
        posts = []
        if not self.accts:
            return [self.bad_posting(t) for _ in range(r.randint(0, 3))]
        for _ in range(r.randint(*p["txns"])):
            t += r.choice([0, 0, 60, 3600, 86400, 86400, 86400 * 31]) if r.random() < 0.9 else r.choice([60, 43200])
            if r.random() < p["order"]:
                t -= 86400 * 3
            words = lambda: r.choice(WORDS).replace(":", ";") if r.random() < 0.8 else r.choice(["", " x ", "  "])
            line = lambda a, v, c, tt: "%s:%s:%s:%s:%s:%s:%s" % (r.choice(["", "1", "x"]), self.when(tt), words(), r.choice(["", "z"]), a if r.random() < 0.97 or a < 0 else "0%d" % a, v, c)
            lines = []
            now = lambda a, tt: sum(v for (b, u, v) in posts if b == a and u <= tt)
            kind = r.random()
            own = {}
            if kind < p["check"]:      # what an account has to have
                n = r.choice([0, 0, 0, 1, 2])
                rest = 0
                for _ in range(n):
                    a, v = r.choice(self.accts), self.amount() or 5
                    if rest + v == 0:
                        v += 7
                    rest += v
                    posts.append((a, t, v))
                    lines.append(line(a, signed(r, v), "", t))
                a = r.choice(self.accts)
                want = now(a, t) - rest
                if r.random() < p["fails"] * 0.5:
                    want += r.choice([1, -1, 100, 12345])
                posts.append((a, t, -rest))
                ctext = ("-" if want < 0 else r.choice(["", "+"])) + money(r, abs(want))
                lines.append(line(a, "", ctext, t))
            else:
                n = r.choice([1, 1, 1, 1, 2, 2, 3]) if r.random() > 0.04 else 0
                rest = 0
                for _ in range(n):
                    a, v = r.choice(self.accts), self.amount() or 3
                    if rest + v == 0:
                        v += 11
                    rest += v
                    tt = t + (r.choice([60, 86400, -86400, 86400 * 40]) if r.random() < p["dated"] else 0)
                    posts.append((a, tt, v))
                    lines.append(line(a, signed(r, v), "" if r.random() < 0.95 else "+1.00", tt))
                a = r.choice(self.accts)
                v = -rest
                if r.random() < p["fails"] * 0.2:
                    v += r.choice([1, -1, 5000])
                tt = t + (r.choice([60, 86400, -86400]) if lines and r.random() < p["dated"] else 0)
                posts.append((a, tt, v))
                lines.append(line(a, signed(r, v), "", tt))
            if r.random() < p["none"]:   # with no value and no check
                lines.insert(0 if r.random() < 0.8 else r.randint(0, len(lines)), line(r.choice(self.accts), "", "", t))
            for l in lines:
                if r.random() < p["wrong"] * 0.4:
                    out.append(self.bad_posting(t))
                out.append(l)
        if r.random() < 0.15 and len(out) > 1:
            out.pop()
        return out

    def files(self):
        a = self.account_lines()
        r = self.r
        for _ in range(3):
            if r.random() < self.p["wrong"]:
                a.insert(r.randint(0, len(a)), self.bad_account())
        f = {"accounts": a}
        if r.random() > 0.02:
            f["transactions"] = self.posting_lines()
        return f


def garble(lines, r):
    """Any bytes."""
    out = []
    for l in lines:
        b = l.encode("utf8")
        if r.random() < 0.25 and b:
            i = r.randrange(len(b))
            b = r.choice([b[:i], b[i:], b[:i] + bytes([r.choice([0, 58, 58, 43, 45, 46, 48, 57, 101, 32, 255, 120, 195])]) + b[i + r.randint(0, 1):], b + b, bytes(r.randrange(256) for _ in range(12)).replace(b"\n", b":")])
        out.append(b.decode("utf8", "surrogateescape"))
    return out


def judge(ck, cases, what, ops=ops, jobs=None):
    res = run_journals(ck, cases, ops)
    recs, done = [], commands.run(ck, cases, jobs, {c.id: outcome(res[c.id])[2] for c in cases}) if jobs else {}
    for c in cases:
        r, proj, log = outcome(res[c.id])
        for t in proj["txns"] if proj else []:      # here postings have no identifier
            for x in t["posts"]:
                x["auto"] = x["acct"] == len(proj["accts"])
        files = []
        for f in ("accounts", "transactions"):
            p = c.path(f)
            if os.path.isdir(p):
                files.append(dict(path=[], kind="dir", lines=[], toolong=0))
            elif not os.path.exists(p):
                files.append(dict(path=[], kind="missing", lines=[], toolong=0))
            else:
                with open(p, "rb") as fp:
                    ls = journal.lines_of(fp.read())
                long = next((i + 1 for i, l in enumerate(ls) if len(l) >= 65536), 0)
                files.append(dict(path=[], kind="ok", lines=[list(l[:80] if len(l) > 2000 else l) for l in ls], toolong=long))
        o = enc.ledger(proj, {}, nosrc=True) if r == "ok" else dict(enc.EMPTY)
        recs.append(dict(id=c.id, files=files, obs=dict(o, res=r, logs=[]), groups=c.groups, flat=0, mine=0, after=[x["res"] for x in res[c.id][1:] if "flush" not in x] if r == "ok" else []))
        if jobs:
            recs[-1].update(commands.fields(done[c.id]))
    v, st = journal.judge("ConfTextDB", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for c in cases:
        verdict, bad, why, _ = v[c.id]
        ck.note("%s: %s" % (what, why))
        if verdict == "accepted":
            if len(ck.samples) < 3 and why == "ok":
                ck.samples.append(dict(files=files_text(c), outcome=why, compared=c.groups))
        else:
            ck.violation("%s %s: the code and the specification disagree in: %s" % (what, c.id, ", ".join(bad)),
                         dict(files=files_text(c), failing=bad, specification=why, code=res[c.id], **(dict(commands=commands.details(done[c.id])) if jobs else {})))
    for c in cases:
        c.clean()


# Databases made of lines chosen from a few, as spec/MCTextDB.tla explores them
ACCOUNTS = ["1:::Assets:A1:", "2:::Bank::1", "1:::Other:x:", "7:::late::3", "3:::Assets2::", "x:::no::", "", ":::a"]
POSTINGS = ["1:2020-01-02:d::1:+5.00:", "1:2020-01-02:e::2:-5.00:", "1:2020-01-03 10.30:f::2:+2:", "1:2020-01-01:g::1:-2.004:", "1:2020-01-04:h::2::3.00", "1:2020-01-04:i::1::-5",
            "1:2020-01-04:j::3::0", "1:2020-01-05:k::1::", "junk", "1:2020-13-01:d::1:+5.00:", "1:2020-01-02:d::9:+5.00:", "1:2020-01-02:d::1:5.00:", "1:2020-01-02:z::3:-0.00:"]


def explore(ck, sample, longest, most=None):
    path = os.path.join(core.scratch(), "textdb-%d.json" % random.randrange(10 ** 9))
    with open(path, "w") as f:
        json.dump(dict(accounts=[list(x.encode()) for x in ACCOUNTS], postings=[list(x.encode()) for x in POSTINGS]), f)
    found = ck.explored("MCTextDB", None, 700, dict(LINES=path, SAMPLE=str(sample), LONGESTA=str(longest[0]), LONGESTP=str(longest[1])), most)
    os.unlink(path)
    return [Case(ck.next_id(), {"accounts": [ACCOUNTS[i - 1] for i in a], "transactions": [POSTINGS[i - 1] for i in p]}, ALL) for a, p in found]


def modelled(ck):
    judge(ck, explore(ck, ck.size(150, 2000), (5, 8)), "modelled text databases")
    if not ck.quick():
        judge(ck, explore(ck, 0, (2, 2), 4000), "small text databases")
        judge(ck, explore(ck, 0, (1, 3), 4000), "small text databases")
