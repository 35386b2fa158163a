"""Generation of journals.

Journals are made from transactions whose amounts are all known, then written down in many ways
(omitted amounts, prices, assertions, dates of postings, styles of amounts and dates, comments);
some of them get one thing wrong.  What has to come out of them is decided by the specification only.
"""
import random

U = 10**8
MAX = 2**63 - 1
EPOCH = 946684800

PROFILE = dict(
    txns=(1, 7), prices=(0, 4), accts=(2, 8), curs=(1, 4),
    dated=0.15, omit=0.35, asrt=0.12, asrt_only=0.04, exchange=0.12, priced=0.12, multi=0.1, zero=0.04,
    comments=0.15, tags=0.25, declare_acct=0.4, declare_cur=0.6, fail=0.25, big=0.03, fine=0.15, layout=0.25,
    fails=None, dflt=0.35, unnamed=0.15, sametime=0.3, pricemode=0.5, oddname=0.1, years=(1990, 2030), far=0.12, thou=0.4, tiny=0.05, comps=None, late=0.2, deep=0.06, longname=0.06, wide=0.0, many=0.04, transfer=0.04, oddacct=0.03)


def profile(**kw):
    p = dict(PROFILE)
    p.update(kw)
    return p


COMPS = ["Assets", "Income", "Expense", "Equity", "Liabilities", "Bank", "Cash", "Food", "Rent", "Card 1", "Café", "a", "B",
         "Salary", "bank", "Debt", "x-1", "Stock", "2020"]
CURS = ["EUR", "USD", "GBP", "$", "€", "AAPL", "BTC", "X", "£", "kg", "a.b", "my coin", "EURO", "eur", "_u", "per cent", "new  shares", "tab\tbed"]
WORDS = ["rent", "buy", "x", "salary", "note", "Ünits", "a b", "(1)", "paid = 3", "@home", "2020-01-01", "100%", "-", "P", "q:"]


class Cur:
    def __init__(self, name, r, p):
        self.name = name
        self.before = r.random() < 0.3 if name else False
        self.nospace = r.random() < 0.4
        self.dec = r.choice([".", ".", ","])
        self.thou = ""
        if r.random() < p["thou"]:
            self.thou = r.choice([c for c in [",", ".", "'", "_"] if c != self.dec])
        self.prec = r.choice([0, 1, 2, 2, 2, 2, 3, 4, 5, 8])
        self.seen = False     # some amount of it has been written


class Post:
    def __init__(self, acct, cur, amt):
        self.acct, self.cur, self.amt = acct, cur, amt
        self.time = None
        self.price = None     # (kind, cur, amt as written, total)
        self.omit = False
        self.asrt = None      # (cur, amt)
        self.raw = None       # text instead of amount
        self.comment = None
        self.below = []


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.what = []

    def chance(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    # -- pieces

    def acct_names(self):
        r = self.r
        n = r.randint(*self.p["accts"])
        names = []
        most = 9 if r.random() < self.p["deep"] else 4
        comps = self.p["comps"] or COMPS
        if r.random() < self.p["longname"]:
            comps = comps + [" ".join(r.choice(["Loan", "from", "Énergie", "Account", "no 7", "Bank"]) for _ in range(r.randint(5, 14))) for _ in range(2)]
        if r.random() < self.p["wide"]:      # many accounts below one
            base = r.choice(comps)
            k = r.randint(10, 40)
            names = [base] * (r.random() < 0.5) + [base + ":" + r.choice(comps) + str(i) for i in r.sample(range(k), k)]
            n += len(names)
        if r.random() < self.p["transfer"]:      # what the account of transfers is called
            names.append(r.choice(["Assets:Transfer account", "Assets:Transfer account", "Transfer account", "Assets:Transfer account:" + r.choice(comps)]))
        if r.random() < self.p["oddacct"]:       # empty names, or with blanks around
            a = r.choice(comps)
            names += r.sample([a + ":", a + "::b", ":" + a, a + ": b", a + " :b", a, a + ":b", a + " : b", ":", a + ":b:", a + ": :b"], r.randint(2, 5))
        while len(names) < n:
            if most > 4 and names and r.random() < 0.6:
                base = max(names, key=lambda x: x.count(":")) + ":"
                nm = base + r.choice(comps)
                if nm.count(":") <= most and nm not in names:
                    names.append(nm)
                    continue
            base = r.choice(names) + ":" if names and r.random() < 0.5 else ""
            depth = 1 + (r.random() < 0.5) + (r.random() < 0.2)
            nm = base + ":".join(r.choice(comps) for _ in range(depth))
            if nm.count(":") > most:
                continue
            if nm not in names:
                names.append(nm)
        return names

    def word_comment(self):
        r = self.r
        if r.random() < self.p["tags"]:
            return r.choice(["code:%d" % r.randint(0, 99), "isin:ES%d" % r.randint(0, 99), "foo:bar", "x code: 5", "Code:7",
                             "date: x", "zcode:1", "isin:", "a:b:c", "date:2020-02-30", "say code:1 isin:2", "k: code:3",
                             "code: %d" % r.randint(0, 99), "code:  x y ", "isin: ES%d" % r.randint(0, 99), "date: 2020-01-05", "date:2020-01-05 code:1", "1code:5",
                             "x2date:2020-01-05", "Xcode:5", "éisin:5", "_code:6", "code:5:6", "isin:\tES5", "code:é", "CODE:1", ":code:1", "x-code:2", "code :7",
                             "date:2020-01-05/10:30", "a1:b code:2", "code:", "code:;5", "isin:", "isin: X", "isin:Y isin:", "code:3 code:"])
        if r.random() < 0.08:
            return ""
        if r.random() < 0.02:
            return " ".join(r.choice(WORDS) for _ in range(r.randint(30, 200)))
        return " ".join(r.choice(WORDS) for _ in range(r.randint(1, 3)))

    def amount(self):
        r = self.r
        if self.chance("big"):
            a = r.randint(1, MAX // 4)
        elif self.chance("fine"):
            a = r.randint(1, 10 ** r.randint(1, 12))
        elif self.chance("tiny"):
            a = r.randint(1, 9)
        else:
            a = r.choice([1, 1, 1, 10, 100, 1000]) * r.randint(1, 9999) * (U // 100)
        return a if r.random() < 0.5 else -a

    def num(self, amt, c):
        """The text of an amount in the style of its currency."""
        r = self.r
        neg, a = amt < 0, abs(amt)
        i, d = divmod(a, U)
        ds = "%08d" % d
        least = len(ds.rstrip("0"))
        if least == 0 and (c.seen or c.dec == ".") and r.random() < 0.4:
            nd = 0
        else:
            nd = max(least, c.prec if r.random() < 0.7 else r.randint(0, 8))
        if not c.seen:
            if nd == 3 and len(str(i)) <= 3:
                nd = 4
            if nd == 0 and c.dec == ",":
                nd = 2
        s = str(i)
        if c.thou and c.seen and i >= 1000 and r.random() < 0.7:
            g = []
            while len(s) > 3:
                g.insert(0, s[-3:])
                s = s[:-3]
            s = c.thou.join([s] + g)
        elif r.random() < 0.03:
            s = "0" + s
        c.seen = True
        if nd:
            s += c.dec + ds[:nd]
        sign = "-" if neg else ("+" if r.random() < 0.05 and not c.before else "")
        return sign + s

    def value(self, cur, amt):
        c = self.curs[cur]
        n = self.num(amt, c)
        if c.name == "" or (cur == self.dflt and self.r.random() < 0.4):
            return n
        sp = "" if c.nospace else " "
        if self.r.random() < 0.05:
            sp = " " if sp == "" else "  "
        return c.name + sp + n if c.before and not n.startswith("+") else n + sp + c.name

    def date(self, t, word=True):
        """The text of a time, given in seconds since 1970."""
        r = self.r
        import datetime
        d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
        sep = r.choice("---/._" if word else "--/")
        s = sep.join(["%04d" % d.year, "%02d" % d.month, "%02d" % d.day])
        if (d.hour, d.minute, d.second) == (12, 0, 0) and r.random() < 0.85:
            return s
        s += r.choice("//-_") + ("%02d" % d.hour if r.random() < 0.8 else "%d" % d.hour)
        if d.minute or d.second or r.random() < 0.7:
            s += r.choice("::-.") + "%02d" % d.minute
            if d.second or r.random() < 0.2:
                s += r.choice("::-.") + "%02d" % d.second
        return s

    def day(self, y):
        import datetime
        r = self.r
        m = r.choice([1, 2, 2, 3, 6, 12, r.randint(1, 12)])
        d = r.choice([1, 28, 28, r.randint(1, 28)])
        return int((datetime.datetime(y, m, d) - datetime.datetime(1970, 1, 1)).total_seconds()) + 43200

    def step(self, t):
        r = self.r
        if self.chance("sametime"):
            return t
        k = r.random()
        if k < 0.25:
            return t + r.choice([1, 60, 3600, 61, 86399, r.randint(1, 50000)])
        t2 = t - (t % 86400) + 43200
        if t2 < t:
            t2 += 86400
        return t2 + 86400 * r.choice([0, 1, 1, 2, 3, 7, 28, 30, 31, 365])

    # -- transactions

    def txn_posts(self):
        r = self.r
        A = lambda: r.choice(self.accts)
        C = lambda: r.randrange(len(self.curs))
        kind = "simple"
        k = r.random()
        if len(self.curs) > 1:
            for name in ["exchange", "priced", "multi"]:
                if k < self.p[name]:
                    kind = name
                    break
                k -= self.p[name]
        posts = []

        def balanced(cur, n):
            left = 0
            for i in range(n - 1):
                a = self.amount()
                if abs(left + a) > MAX // 2:
                    a = -a
                posts.append(Post(A(), cur, a))
                left += a
            if n == 1 or left == 0 and r.random() < 0.5:
                return
            posts.append(Post(A(), cur, -left))
        if kind == "simple":
            balanced(C(), r.choice([2, 2, 2, 3, 3, 4]) if r.random() > self.p["many"] else r.randint(6, 24))
            if self.chance("zero"):
                posts.append(Post(A(), C(), 0))
        elif kind == "multi":
            c1 = C()
            c2 = r.choice([c for c in range(len(self.curs)) if c != c1])
            balanced(c1, r.choice([2, 3]))
            balanced(c2, r.choice([2, 3]))
            if r.random() < 0.25:
                for c in range(len(self.curs)):
                    if c not in (c1, c2):
                        balanced(c, 2)
        elif kind == "exchange":
            c1 = C()
            c2 = r.choice([c for c in range(len(self.curs)) if c != c1])
            posts += [Post(A(), c1, self.amount()), Post(A(), c2, self.amount())]
            if r.random() < self.p["many"]:
                posts += [Post(A(), r.choice([c1, c2]), self.amount() % 10**14) for i in range(r.randint(3, 20))]
            if r.random() < 0.4:
                balanced(r.choice([c1, c2, C()]), 2)
        else:
            c1 = C()
            c2 = r.choice([c for c in range(len(self.curs)) if c != c1])
            total = 0
            for i in range(r.choice([1, 1, 2]) if r.random() > self.p["many"] else r.randint(3, 9)):
                a = self.amount()
                if abs(a) > 10**14:
                    a = a % 10**12 + 1
                p = Post(A(), c1, a)
                if r.random() < 0.5:
                    u = r.choice([1, 1, U, r.randint(1, 999)]) * r.choice([1, 100, U // 100, U])
                    u = min(abs(u), 10**12)
                    k = abs(a) * u // U
                    t = k if a > 0 else -k
                    p.price = ("@", c2, u, t)
                else:
                    t = abs(self.amount()) % 10**15
                    t = t if r.random() < 0.9 else -t
                    p.price = ("@@", c2, t, t)
                posts.append(p)
                total += t
            posts.append(Post(A(), c2, -total))
            if r.random() < 0.2:
                balanced(c1, 2)
        r.shuffle(posts) if r.random() < 0.6 else None
        # omit one amount
        if posts and self.chance("omit"):
            sums = {}
            for p in posts:
                c, v = (p.price[1], p.price[3]) if p.price else (p.cur, p.amt)
                sums[c] = sums.get(c, 0) + v
            ok = [p for p in posts if not p.price and sums[p.cur] == 0 and not any(v for v in sums.values())]
            if ok:
                p = r.choice(ok)
                p.omit = True
                if p.amt == 0:
                    p.cur = None
            elif not any(sums.values()):
                p = Post(A(), None, 0)
                p.omit = True
                posts.append(p)
        if not posts and r.random() < 0.5:
            posts.append(Post(A(), C(), 0))
        return posts

    def journal(self):
        stream, fail = self.stream()
        return self.render(stream, fail)

    def stream(self):
        """The entries of a journal, before they are written down, and what is wrong with them."""
        r, p = self.r, self.p
        self.accts = self.acct_names()
        n = r.randint(*p["curs"])
        pool = [c for c in CURS if " " not in c and "\t" not in c] if r.random() > p["oddname"] else CURS
        self.curs = [Cur(nm, r, p) for nm in r.sample(pool, n)]
        self.dflt = None
        mode = r.random()
        if mode < p["unnamed"]:
            self.curs[0] = Cur("", r, p)
            self.dflt = 0
        years = p["years"]
        if self.chance("far"):
            years = r.choice([(5, 1000), (1001, 1969), (1960, 1975), (2031, 2190), (2031, 2190), (2200, 9900)])
        t = self.day(r.randint(*years))
        stream = []
        for i in range(r.randint(*p["txns"])):
            t = self.step(t)
            posts = self.txn_posts()
            for q in posts:
                if self.chance("dated"):
                    q.time = t + r.choice([86400, -86400, 86400 * 30, -86400 * 40, 3600, 86400 * 3, 86400 * 400, 0])
            stream.append(["txn", t, posts])
        tp = stream[0][1] if stream else t
        for i in range(r.randint(*p["prices"])):
            tp = self.step(tp)
            named = [c for c in range(len(self.curs)) if self.curs[c].name and " " not in self.curs[c].name]
            if not named:
                continue
            c1 = r.choice(named)
            others = [c for c in range(len(self.curs)) if c != c1] or [c1]
            v = abs(self.amount()) % 10**13 or U
            if r.random() < 0.05:
                v = r.choice([0, -v])
            stream.append(["price", tp, c1, r.choice(others), v])
        if r.random() < p["pricemode"]:
            stream.sort(key=lambda e: e[1])
        elif r.random() < 0.3:
            r.shuffle(stream)
            a = sorted([e for e in stream if e[0] == "txn"], key=lambda e: e[1])
            b = sorted([e for e in stream if e[0] == "price"], key=lambda e: e[1])
            stream = [(a if e[0] == "txn" else b).pop(0) for e in stream]
        self.assertions([e for e in stream if e[0] == "txn"])
        fail = None
        if self.chance("fail"):
            fail = self.inject(stream)
        return stream, fail

    def assertions(self, txns):
        """Adds assertions that are true."""
        r = self.r
        allp = [(p.time if p.time is not None else e[1], p) for e in txns for p in e[2]]
        order = sorted(range(len(allp)), key=lambda i: allp[i][0])
        bal = {}
        for i in order:
            q = allp[i][1]
            if q.cur is not None:
                k = (q.acct, q.cur)
                bal[k] = bal.get(k, 0) + q.amt
            if q.cur is not None and not q.omit and not q.price and self.chance("asrt_only") and abs(bal[(q.acct, q.cur)]) < MAX:
                q.omit, q.asrt = True, (q.cur, bal[(q.acct, q.cur)])
            elif q.cur is not None and not q.omit and self.chance("asrt"):
                held = [c for c in range(len(self.curs)) if bal.get((q.acct, c))]
                c = r.choice(held) if held and r.random() < 0.9 else r.randrange(len(self.curs))
                v = bal.get((q.acct, c), 0)
                if abs(v) < MAX:
                    q.asrt = (c, v)

    FAILS = ["unbalanced", "tiny", "three", "twoomitted", "omitmulti", "assertion", "assertcur", "order", "priceorder",
             "dupaccount", "amount", "priceamount", "assertamount", "badprice", "junk", "orphan", "baddate", "missing", "pricenoval",
             "commodity", "dbad", "omitassertion", "emptytxn", "overflow", "hugeassert", "hugesum", "deadlock", "odd"]

    def inject(self, stream):
        r = self.r
        kind = r.choice(self.p["fails"] or self.FAILS)
        self.what.append(kind)
        txns = [e for e in stream if e[0] == "txn"]
        if not txns:
            return kind
        e = r.choice(txns)
        posts = e[2]
        some = [q for q in posts if q.cur is not None and not q.omit]
        A = lambda: r.choice(self.accts)
        if kind == "unbalanced" and some:
            r.choice(some).amt += self.amount()
        elif kind == "tiny" and some:
            r.choice(some).amt += r.choice([1, -1])
        elif kind == "three":
            for c in range(len(self.curs)):
                posts.insert(r.randint(0, len(posts)), Post(A(), c, self.amount()))
        elif kind == "twoomitted":
            for i in range(2):
                q = Post(A(), None, 0)
                q.omit = True
                posts.insert(r.randint(0, len(posts)), q)
        elif kind == "omitmulti" and len(self.curs) > 1:
            for c in r.sample(range(len(self.curs)), 2):
                posts.append(Post(A(), c, self.amount()))
            q = Post(A(), None, 0)
            q.omit = True
            posts.insert(r.randint(0, len(posts)), q)
        elif kind == "assertion" and some:
            q = r.choice(some)
            q.asrt = q.asrt or (q.cur, q.amt)
            q.asrt = (q.asrt[0], q.asrt[1] + r.choice([1, -1, U, -U, self.amount()]))
        elif kind == "assertcur" and some:
            q = r.choice(some)
            c = r.randrange(len(self.curs))
            q.asrt = (c, r.choice([0, q.amt, self.amount()]))
        elif kind == "omitassertion" and some:
            q = r.choice(some)
            q.omit, q.price, q.asrt = True, None, (q.cur, q.amt + r.choice([0, 0, 1, self.amount()]))
        elif kind == "order" and len(txns) > 1:
            e[1] -= r.choice([1, 86400, 400 * 86400])
        elif kind == "priceorder":
            ps = [x for x in stream if x[0] == "price"]
            if len(ps) > 1:
                r.choice(ps)[1] -= r.choice([1, 86400, 400 * 86400])
        elif kind == "amount":
            q = Post(A(), None, 0)
            q.raw = self.bad_amount()
            posts.insert(r.randint(0, len(posts)), q)
        elif kind == "priceamount" and some:
            q = Post(A(), None, 0)
            c = r.randrange(len(self.curs))
            q.raw = ["5 " + (self.curs[c].name or "Z"), r.choice(["@", "@@"]) + " ", self.bad_amount()]
            posts.append(q)
        elif kind == "assertamount" and some:
            q = Post(A(), None, 0)
            q.raw = ["0 " + (self.curs[0].name or "Z"), "= ", self.bad_amount()]
            posts.append(q)
        elif kind == "pricenoval":
            q = Post(A(), None, 0)
            q.raw = r.choice(["@ 5 USD", "@@ 5 USD", "5 USD @", "5 USD @@", "5 USD =", "5 USD @ = 5 USD", "@", "="])
            posts.append(q)
        elif kind == "emptytxn":
            e[2] = []
        elif kind == "overflow":
            c = r.randrange(len(self.curs))
            a = A()
            big = MAX // 10**7 * 10**7
            for i in range(r.choice([1, 2])):
                posts += [Post(a, c, big), Post(A(), c, -big)]
            posts[-1].acct = r.choice([posts[-1].acct, a])
        elif kind == "hugeassert":    # what an assertion decides is as big as it can be, or bigger
            c = r.randrange(len(self.curs))
            a, b = (A() + ":Huge", A() + ":Other") if r.random() < 0.8 else (A(), A())
            s = r.choice([1, -1])
            grain = r.choice([1, 10**6, 10**8])
            had = r.choice([MAX // 2, MAX - 1, MAX, r.randint(1, MAX)]) // grain * grain
            diff = r.choice([MAX, MAX, MAX - 1, MAX + 1, MAX + grain, MAX + had, MAX // 2]) // grain * grain
            want = diff - had
            if want > MAX:
                want = MAX // grain * grain
            q = Post(a, c, 0)
            q.omit, q.asrt = True, (c, s * want)
            posts += [Post(a, c, -s * had), Post(b, c, s * had), q]
            if want + had <= MAX:
                posts.append(Post(A(), c, -s * (want + had)))
            elif want + had > MAX + 1 and r.random() < 0.8:     # it balances in arithmetic of 64 bits
                posts.append(Post(A(), c, s * (2**64 - want - had)))
        elif kind == "hugesum":       # amounts that sum to as much as there can be, to one more or to one less
            c = r.randrange(len(self.curs))
            s, d, k = r.choice([1, -1]), r.choice([-1, 0, 0, 1]), r.choice([0, 1, r.randint(0, MAX // 2)])
            a = A() + ":Huge"
            b = a if r.random() < 0.4 else A() + ":Other"
            two = [Post(a, c, s * (MAX - k)), Post(b, c, s * (k + 1 + d))]
            if r.random() < 0.2 and len(self.curs) > 1:
                o = r.choice([x for x in range(len(self.curs)) if x != c])
                two[1] = Post(b, o, self.amount())
                two[1].price = ("@@", c, s * (k + 1 + d), s * (k + 1 + d))
            if r.random() < 0.4:
                last = [Post(A(), None, 0)]
                last[0].omit = True
            else:
                last = [Post(A(), c, -s * MAX), Post(A(), c, -s * (1 + d))]
            new = two + last
            if r.random() < 0.2:
                r.shuffle(new)
            if r.random() < 0.25:
                for q in new:
                    if r.random() < 0.7:
                        q.time = e[1] + r.choice([86400, 86400 * 3])
            posts[:] = new
        elif kind == "deadlock" and len(txns) > 1 and some:
            a, b = A(), A()
            c = r.randrange(len(self.curs))
            for x in r.sample(txns, 2):
                q1, q2 = Post(a, c, self.amount()), Post(b, c, 0)
                q1.omit, q1.asrt = True, (c, self.amount())
                q2.omit = True
                if r.random() < 0.5:
                    q1.time = x[1] + r.choice([-1, 1, 400]) * 86400
                x[2] += r.choice([[q1, q2], [q2, q1], [q1]])
        return kind

    def bad_amount(self):
        r = self.r
        c = r.choice(self.curs)
        n = r.choice(["1,00,0", "1.2.3", "1,234.5,6", "1..2", "1.123456789", "92233720368.54775808", "99999999999999999999",
                      "1,23.4", "1,234,56", "1.000,00.0", "-", "+", "--1", "1-", "1.", ".5", "1,", "1'0", "1_000_00", "1,000",
                      "1.000", "12,345", "1234,567", "1,2345.67", "0,000", "1.5.000", "-.5", "+-5", "5+5", "1234.567.890",
                      "1,000,000", "1.000.000,5", "12345.678.901", "0.000000001", "92233720368.54775807", "1e5", "0x10", "½",
                      "1,000.123456789", "1 000", "123.456,789.1", "1'234,5", "1_2"])
        nm = c.name or "Z"
        return r.choice([n + " " + nm, nm + " " + n, n + nm, nm + n, n, nm, n + " = " + nm, n + " " + nm + "@"])

    # -- text

    def post_line(self, q, t):
        r = self.r
        ind = r.choice(["  ", "  ", "    ", "\t", " "])
        s = ind + q.acct
        v = ""
        if isinstance(q.raw, list):
            v = " ".join([q.raw[0], q.raw[1] + q.raw[2]])
        elif q.raw is not None:
            v = q.raw
        else:
            if not q.omit and q.cur is not None:
                v = self.value(q.cur, q.amt)
                if q.price:
                    v += r.choice([" ", "", "  "]) + q.price[0] + r.choice([" ", "", "  "]) + self.value(q.price[1], q.price[2])
            if q.asrt:
                v += (r.choice([" ", "  "]) if v else "") + "=" + r.choice([" ", "", "  "]) + self.value(*q.asrt)
        if v:
            s += r.choice(["  ", "   ", "        "]) + v
        elif r.random() < 0.1:
            s += "   "
        below = []
        if q.time is not None:
            tag = "date:" + self.date(q.time, False)
            if r.random() < 0.2:
                tag = r.choice(["on date:", "x: y date:"])[:-5] + tag if r.random() < 0.3 else tag
            if r.random() < 0.7:
                s += r.choice([" ; ", "  ;", ";"]) + tag
            else:
                below.append(tag)
        elif self.chance("comments"):
            s += r.choice([" ; ", "  ;"]) + self.word_comment()
        out = [s]
        while self.chance("comments") and len(below) < 3:
            below.insert(r.randint(0, len(below)), self.word_comment())
        for b in below:
            out.append(r.choice(["  ; ", "\t;", "   # ", "    * "]) + b)
        return out

    def below(self, out):
        while self.chance("comments") and self.r.random() < 0.6:
            out.append(self.r.choice(["  ; ", "\t;", "   # ", "  * "]) + self.word_comment())

    def with_comment(self, s):
        out = [s + (self.r.choice([" ; ", ";", "  ;"]) + self.word_comment() if self.chance("comments") else "")]
        self.below(out)
        return out

    def render(self, stream, fail):
        r, p = self.r, self.p
        out = []
        blocks = []
        for a in self.accts:
            if self.chance("declare_acct"):
                blocks.append(("acct", a))
        order = list(range(len(self.curs)))
        for c in order:
            if self.chance("declare_cur"):
                blocks.append(("cur", c))
        if r.random() < 0.5:
            r.shuffle(blocks)
        if self.dflt is None and self.chance("dflt"):
            blocks.insert(r.randint(0, len(blocks)), ("dflt", r.randrange(len(self.curs))))
        made = set()
        late = []
        if r.random() < p["late"]:
            late = [b for b in blocks if r.random() < 0.4]
            blocks = [b for b in blocks if b not in late]

        def emit(b):
            if b[0] == "acct":
                if b[1] in made and fail != "dupaccount":
                    return
                parts = b[1].split(":")
                for i in range(len(parts)):
                    made.add(":".join(parts[:i + 1]))
                out.extend(self.with_comment("account " + b[1]))
            elif b[0] == "cur":
                c = self.curs[b[1]]
                th = c.thou
                amt = (1000000 if th else r.choice([1000000, 1, 1000])) * U
                ds = c.dec + "0" * c.prec if c.prec else ""
                if th:
                    n = th.join(["1", "000", "000"]) + ds
                else:
                    n = str(amt // U) + (ds if len(ds) != 4 or amt > 1000 * U else ds + "0")
                if c.seen:
                    n = self.num(amt, c)
                c.seen = True
                sp = "" if c.nospace else " "
                v = n if c.name == "" else (c.name + sp + n if c.before else n + sp + c.name)
                out.extend(self.with_comment("commodity " + v))
                if self.p["tags"] and r.random() < 0.06:   # said again, another way
                    out.extend(" ; " + r.choice(["isin:A1", "isin:", "isin: ", "x isin:B2", "isin:A1 isin:"]) for _ in range(r.randint(2, 3)))
            elif b[0] == "dflt":
                self.dflt = None
                s = "D " + self.value(b[1], 1000 * U)
                self.dflt = b[1]
                out.append(s)
        pend = [x for x in late]
        if fail == "dupaccount":
            blocks.append(("acct", r.choice(self.accts)))
            blocks.append(("acct", r.choice(self.accts)))
        for b in blocks:
            emit(b)
            self.noise(out)
        for e in stream:
            if pend and r.random() < 0.3:
                b = pend.pop(0)
                if b[0] != "acct" or not any(b[1] == m or m.startswith(b[1] + ":") for m in made):
                    emit(b)
            if e[0] == "price":
                n = self.curs[e[2]].name
                out.extend(self.with_comment("P %s %s %s" % (self.date(e[1]), n, self.value(e[3], e[4]))))
            else:
                desc = " ".join(r.choice(WORDS) for _ in range(r.randint(0, 3) if r.random() < 0.97 else r.randint(30, 120)))
                out.extend(self.with_comment((self.date(e[1]) + " " + desc).rstrip() if r.random() < 0.9 else self.date(e[1]) + "  " + desc))
                for q in e[2]:
                    out.extend(self.post_line(q, e[1]))
                    parts = q.acct.split(":")
                    for i in range(len(parts)):
                        made.add(":".join(parts[:i + 1]))
                if r.random() < 0.5:
                    out.append("")
            self.noise(out)
        if fail in ("junk", "orphan", "baddate", "badprice", "commodity", "dbad", "missing", "odd"):
            C = r.choice(self.curs).name or "Z"
            bad = {
                "junk": ["hello world", "- x", "2020 x", "A:B  5 EUR", "Pfoo", "includex", "=", "1", "account", "~ monthly", "P"],
                "orphan": ["  A:B  5 EUR", "  Assets  5", "\tx", "  ; lost comment"],
                "baddate": ["2020-02-30 x", "2020-13-01 y", "2019-02-29 z", "20-01-01 a", "2020-1-01 b", "2020-01-01/25:00 c",
                            "2020-01-01/10:60 d", "2020-01-01T10:00 e", "2020-00-10 f", "2020-01-00 g", "2020-01-01,5 h",
                            "1900-02-29 i", "2100-02-29/12 j", "2020-01-01/10:10:60", "2020-01-01/", "2020-04-31/00:00"],
                "badprice": ["P 2020-02-30 EUR 5 USD", "P", "P x", "P 2100-01-01 EUR", "P 2100-01-01", "P 2100-01-01 EUR USD",
                             "P 2100-01-01 E=R 5 USD", "P 2100-01-01 EUR 5 U@D", "P 2100-01-01 EUR %s" % self.bad_amount()],
                "commodity": ["commodity", "commodity x", "commodity =5", "commodity %s" % self.bad_amount(), "commodity 1000"],
                "dbad": ["D x", "D", "D %s" % self.bad_amount(), "D 1000.00"],
                "missing": ["include nowhere.journal", "include", "include /nonexistent/x", "include .", "include main.journal"],
                "odd": ["account  Odd", "account A::B", "account :A", "account A:", "account A ; code:5", "account", "2020-01-01",
                        "commodity  1,000.00  ZZ ; isin:1", "include  x y", "P 2100-01-01  EUR   5 USD", " account X", "D 5 =x", "  include main.journal", " commodity 5 X", "  D 5 X", "  P 2020-01-01 A 5 B", "  2020-01-01 x", "  account A ; code:5",
                        "account\tA:B", "commodity\t5 Z", "D\t5 Z", "P\t2100-01-01 A 5 B", "P 2100-01-01\tA 5 B", "P 2100-01-01 A\t5 B", "include\tmain.journal", "2100-01-01\tx", "account \tA",
                        "account A  B", "* x", "# y", "; z", "  * w", "2100-01-01 *"],
            }[fail]
            b = r.choice(bad)
            at = r.choice([0, len(out), len(out), r.randint(0, len(out))])
            if fail == "odd" and b.startswith("account") and at:
                at = r.choice([0, 0, at])
            out.insert(at, b)
            if r.random() < 0.5:
                out.insert(at + 1, "  ; under it")
            if fail in ("badprice", "commodity", "baddate", "odd") and r.random() < 0.3:
                out.insert(at + 1, "  " + r.choice(self.accts) + "  0 " + C)
        return out

    def noise(self, out):
        r = self.r
        if not self.chance("layout"):
            return
        k = r.random()
        if k < 0.5:
            out.append("")
        elif k < 0.7:
            out.append(r.choice(["; ", "# ", "* ", ";", "#"]) + self.word_comment())
        elif k < 0.8:
            out.append(r.choice(["  ", "\t", "   \t "]))
        elif out and out[-1].strip():
            out[-1] += r.choice([" ", "  ", "\t"])


def journal(seed, prof):
    g = Gen(seed, prof)
    lines = g.journal()
    return lines, g.what


def split_includes(lines, r, depth=0, name="main.journal", dirs=("", "sub", "sub/deep", "other")):
    """Splits a journal into files; returns {path: lines}, where paths are relative to one directory."""
    import posixpath
    files = {}
    taken = set()
    count = [0]

    def self_end(ls, k):
        """Where the next entry starts"""
        while k < len(ls) and (not ls[k].strip() or ls[k].strip()[0] in ";#*"):
            k += 1
        return k

    def cut(ls, path, depth):
        out = []
        i = 0
        bounds = [k for k in range(len(ls) + 1) if k == len(ls) or (ls[k] != "" and ls[k][0] not in " \t") or ls[k] == ""]
        # never between an entry and its indented lines, also through blank lines and comments
        good = []
        for k in bounds:
            nxt = next((x for x in ls[k:] if x.strip() and x.strip()[0] not in ";#*"), None)
            if nxt is None or nxt[0] not in " \t":
                good.append(k)
        # nor in the middle of the comments under an entry
        good = sorted(k for k in set(good) if not any(x.strip() and x[0] in " \t" for x in ls[k:self_end(ls, k)]))
        while True:
            cand = [g for g in good if g >= i]
            if len(cand) < 2 or r.random() < 0.25 or depth > 3:
                break
            a, b = sorted(r.sample(cand, 2)) if r.random() < 0.8 else (cand[0], cand[0])
            out += ls[i:a]
            count[0] += 1
            d = r.choice(dirs)
            n = count[0]
            names = ["f%d.journal" % n] * 6 + ["file no %d" % n, "2020-01-%02d" % n] + ([chr(96 + n)] if n < 26 else [])
            child = posixpath.join(d, r.choice(names))
            if r.random() < 0.15:        # the same name as the file that includes it, in another directory
                twin = posixpath.join(d, posixpath.basename(path))
                child = twin if twin != name and twin not in files and twin not in taken else child
            taken.add(child)
            rel = posixpath.relpath(child, posixpath.dirname(path) or ".")
            if r.random() < 0.15:
                rel = "./" + rel
            if r.random() < 0.1:
                rel = "@ABS@/" + child
            out.append("include " + rel + r.choice(["", "", " ", " ; c"]))
            files[child] = cut(ls[a:b], child, depth + 1)
            i = b
        out += ls[i:]
        return out
    files[name] = cut(lines, name, 0)
    return files


BITS = ["@", "@@", "=", "==", "  ", "   ", "\t", ";", "; date:2020-01-01", ";date:x", ":", "::", " ", "-", "+", "--", ".", ",", "1", "1.", ".5", "-1", "1,2", "0",
        "9" * 19, "9" * 30, "92233720368.54775807", "92233720368.54775808", "-92233720368.54775808", "0.000000001", "1.00000000", "1e5", "0x10", "EUR", "$", "\"a b\"", "P", "D",
        "account", "commodity", "include", "P ", "D ", "account ", "commodity ", "include ", "2020-01-01", "2020-02-30", "9999-12-31", "0000-01-01", "0001-01-01/00:00:00",
        "  a  5 EUR @ 0 USD", "  a  0 EUR @@ 5 USD", "  a  5 EUR @", "  a  @ 5", "  a  = 5 EUR", "  a  5 = ", "  a", "  :", "  a:  5", "  a::b  5 EUR", " ; x", "*", "#", "",
        "D", "D EUR", "D 1.000,00", "D $1,000.00", "commodity 1'000.00 EUR", "P 2020-01-01 EUR 0 USD", "P 2020-01-01 EUR -1 USD", "P 9999-12-31 EUR 92233720368 USD",
        "  a  1 EUR @ 92233720368 USD", "  a  92233720368 EUR @ 2 USD", "  a  92233720368.54775807 EUR", "  b  -92233720368.54775807 EUR", "  a  0.00000001 EUR", "  a  92233720368 EUR"]
WILD = ["\x00", "\x01", "\x7f", "\u00a0", "\u0085", "\ufeff", "\u2028", "\udcff", "\udcc3", "\U0001f4b6", "\x0b", "\x0c", "\r", "\x1b[2J", "%s%n%d", "\\", "\"", "'"]


def corrupt(lines, r, wild):
    """Spoils a journal in some places."""
    lines = list(lines) or [""]
    for _ in range(r.choice([1, 1, 2, 3, 6, 15])):
        i = r.randrange(len(lines))
        k = r.random()
        l = lines[i]
        bit = r.choice(WILD if wild and r.random() < 0.6 else BITS)
        at = r.randint(0, len(l))
        if k < 0.35:
            lines[i] = l[:at] + bit + l[at:]
        elif k < 0.5:
            lines[i] = l[:at] + l[at + r.randint(1, 4):]
        elif k < 0.6:
            lines[i] = l[:at]
        elif k < 0.75:
            lines.insert(i, bit)
        elif k < 0.8:
            lines.insert(i, l)
        elif k < 0.85:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k < 0.9:
            lines[i] = bit
        elif k < 0.95 and len(lines) > 1:
            del lines[i]
        elif l:
            at = r.randrange(len(l))
            lines[i] = l[:at] + chr(r.randint(32, 126)) + l[at + 1:]
    return lines


# -- small journals: few words, so that everything meets everything

SMALL = ["0", "0", "0.00", "1", "1", "-1", "1.50", "-1.50", "", "", "0 EUR", "1 EUR", "1 EUR", "-1 EUR", "-1.0 EUR", "1.000,5 EUR", "EUR1", "$1", "$ 2.5", "-$0", "0 $", "1 X", "0.00000001 X",
         "1 @ 0", "1 @ 2 EUR", "-1 EUR @ 2", "2 X @@ 3 EUR", "0 EUR @ 3 $", "1 EUR @ 0 $", "1 $ @@ 0", "1 X @ 1 X", "1 EUR @@ -2 $", "2 X @ 0.33333333 $"]
SMALLASRT = ["= 0", "= 1", "= 0 EUR", "= 1 EUR", "= 0 $", "= 0.0 X", "= -1"]


def small(r):
    out = []
    dates = ["2020-01-01", "2020-01-01", "2020-01-02", "2020-01-02/13:00", "2020-01-03"]
    pool = r.sample(SMALL, r.randint(3, 8)) + [""]
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        out.append(r.choice(["D 1.00", "D 1.00 EUR", "D", "D $1", "D 1,0", "commodity 1.000,00", "commodity 1.00 EUR", "commodity $ 1.0", "commodity 1 X ; isin:X", "account a", "account c ; code:1",
                             "account a:b:d", "P 2020-01-01 EUR 2", "P 2020-01-01 EUR 2 $", "P 2020-01-01 X 0 EUR", "P 2020-01-01 X 3 EUR ; c"]))
    t = 0
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        t = min(len(dates) - 1, t + r.choice([0, 0, 1, 1, 2]))
        if r.random() < 0.12:
            out.append("P %s %s %s" % (dates[t], r.choice(["EUR", "X", "$"]), r.choice(["1", "2 EUR", "0", "3 $", "0.5 X"])))
        out.append(dates[t] + r.choice([" x", " y", "", " x ; c"]))
        k = r.choice([1, 2, 2, 2, 2, 3, 3, 4])
        for i in range(k):
            v = r.choice(pool)
            if i == k - 1 and r.random() < 0.5:
                v = ""
            elif i and r.random() < 0.3 and v and "@" not in v:     # the opposite of something
                v = v[1:] if v[0] == "-" else "-" + v
            l = "  " + r.choice(["a", "a", "a:b", "c"]) + "  " + v
            if r.random() < 0.15:
                l += " " + r.choice(SMALLASRT)
            if r.random() < 0.12:
                l += " ; date:" + r.choice(dates + ["2019-12-31"])
            out.append(l.rstrip())
        if r.random() < 0.06:
            out.append(r.choice(["D 1.00 EUR", "D", "D $1", "commodity 1.0 X", "commodity 1,00"]))
    return out
