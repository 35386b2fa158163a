"""The checks, one for each property."""
from . import amounts, built, cli, commands, core, enc, export, gen, journal, lines, momentum, query, registry, slots, tables, sqldb, textdb, values
from .check import Check, Tokens, bare, files_text, journals
from .gen import profile

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def gen_cases(ck, n, prof, groups, tag=""):
    cases = []
    for i in range(n):
        lines, what = gen.journal("%s/%s/%s/%d" % (ck.prop, tag, ck.seed, i), prof)
        r = ck.rng
        cases.append(journal.Case(ck.next_id(), {"main.journal": lines}, groups, note=what,
                                  crlf=r.random() < 0.04, nonl=r.random() < 0.1))
    return cases


def small_cases(ck, n, groups):
    return [journal.Case(ck.next_id(), {"main.journal": gen.small(ck.rng)}, groups) for _ in range(n)]


def huge_sums(ck, n, groups):
    """Sums around the largest amounts that there can be."""
    journals(ck, gen_cases(ck, n, profile(txns=(1, 2), accts=(2, 4), asrt=0, asrt_only=0, omit=0, comments=0, prices=(0, 0), dated=0, exchange=0, priced=0, fail=1.0,
             fails=["hugesum"]), groups, "huge"), "huge sums")


def histories(ck, groups, edited, supplied, fail=0.25, fails=None, small=(), **kw):
    """Ledgers edited and computed again, and ledgers from a backend that supplies the data in any order."""
    prof = profile(**dict(dict(txns=(1, 6), accts=(3, 8), asrt=0.03, asrt_only=0.02, priced=0.15, exchange=0.15, comments=0.05, fail=fail), **kw))
    if edited:
        built.judge(ck, [built.Case(ck.next_id(), "%s/edited/%s/%d" % (ck.prop, ck.seed, i), prof, groups, rounds=1 + i % 3) for i in range(edited)], "edited")
    if supplied:
        built.judge(ck, [built.Case(ck.next_id(), "%s/supplied/%s/%d" % (ck.prop, ck.seed, i), prof, groups, supplied=True, rounds=i % 2, fails=fails) for i in range(supplied)], "supplied")
    for cfg in small:      # small ledgers, as spec/MCBook.tla explores them
        every = cfg.startswith("every")
        if not every or not ck.quick():
            built.modelled(ck, cfg, groups, sample=ck.size(45, 700), most=ck.size(200, 6000))


@check("C01")
def c01(ck):
    g = ["outcome", "balanced"]
    f = ["unbalanced", "tiny", "tiny", "three", "omitmulti", "emptytxn", "unbalanced"]
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(asrt=0, asrt_only=0, comments=0.03, exchange=0.2, priced=0.25, multi=0.15,
             fail=0.55, fails=f, prices=(0, 1), big=0.06, fine=0.3, txns=(1, 5)), g))
    journals(ck, gen_cases(ck, ck.size(120, 2000), profile(asrt=0, asrt_only=0, comments=0, fail=0.3, fails=f + ["overflow"], big=0.3), g, "big"))
    huge_sums(ck, ck.size(50, 600), g)
    journals(ck, gen_cases(ck, ck.size(40, 600), profile(many=0.8, exchange=0.3, priced=0.3, curs=(2, 4), txns=(1, 3), fail=0.5, fails=f, comments=0, asrt=0, prices=(0, 1)),
             g, "many"), "many postings")
    histories(ck, g, ck.size(60, 800), ck.size(60, 800), fail=0.45, fails=["unbalanced", "tiny", "three", "omitmulti", "emptytxn"], asrt=0, asrt_only=0, small=("prices", "spoiled", "every1"))
    journals(ck, small_cases(ck, ck.size(150, 3000), g), "small journals")


@check("C02")
def c02(ck):
    g = ["outcome", "values"]
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(omit=0.85, asrt=0.03, asrt_only=0.05, comments=0.03, fail=0.4, multi=0.2, priced=0.15,
             fails=["twoomitted", "omitmulti", "unbalanced", "three", "emptytxn"], prices=(0, 1), dated=0.1, zero=0.15), g))
    huge_sums(ck, ck.size(50, 600), g)
    histories(ck, g, ck.size(60, 800), ck.size(60, 800), fail=0.3, fails=["twoomitted", "omitmulti"], omit=0.8, asrt=0, asrt_only=0.02, small=("asserts", "every2"))
    journals(ck, small_cases(ck, ck.size(150, 3000), g), "small journals")


@check("C03")
def c03(ck):
    journals(ck, gen_cases(ck, ck.size(400, 6000), profile(txns=(3, 14), accts=(2, 4), dated=0.3, asrt=0.04, fail=0.03, comments=0.02, prices=(0, 1),
             omit=0.4, sametime=0.45), ["running", "lists", "balances", "outcome"]))
    journals(ck, gen_cases(ck, ck.size(5, 60), profile(txns=(40, 90), accts=(2, 3), curs=(1, 3), dated=0.2, asrt=0.01, asrt_only=0, fail=0, comments=0, prices=(0, 0), sametime=0.6),
             ["running", "lists", "balances", "outcome"], "long"), "long journals")
    huge_sums(ck, ck.size(50, 600), ["running", "lists", "balances", "outcome"])
    histories(ck, ["outcome", "running", "lists", "balances"], ck.size(70, 1000), ck.size(70, 1000), fail=0.03, dated=0.3, sametime=0.45, accts=(2, 4), txns=(2, 9), small=("dates", "every2"))
    journals(ck, small_cases(ck, ck.size(150, 3000), ["running", "lists", "balances", "outcome"]), "small journals")


@check("C04")
def c04(ck):
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(txns=(2, 8), accts=(2, 4), asrt=0.35, asrt_only=0.15, omit=0.25, comments=0.02, prices=(0, 0), dated=0.2,
             fail=0.4, fails=["assertion", "assertion", "assertcur", "omitassertion", "deadlock", "pricenoval", "assertamount", "hugeassert"]),
             ["outcome", "values", "annot", "balances"]))
    journals(ck, gen_cases(ck, ck.size(40, 600), profile(txns=(1, 2), accts=(2, 4), asrt=0, asrt_only=0, omit=0, comments=0, prices=(0, 0), dated=0, fail=1.0, fails=["hugeassert"]),
             ["outcome", "values", "annot", "balances"], "huge"), "huge assertions")
    histories(ck, ["outcome", "values", "annot", "balances"], ck.size(60, 800), ck.size(60, 800), fail=0.2, fails=["assertion", "assertcur", "omitassertion", "deadlock"], asrt=0.15, asrt_only=0.1, accts=(2, 4), small=("asserts", "dates", "every2"))
    journals(ck, small_cases(ck, ck.size(150, 3000), ["outcome", "values", "annot", "balances"]), "small journals")


@check("C05")
def c05(ck):
    journals(ck, gen_cases(ck, ck.size(400, 6000), profile(dated=0.5, fail=0.1, comments=0.05, prices=(0, 1), exchange=0.2, priced=0.15, omit=0.4, asrt=0.08),
             ["outcome", "times", "transfers"]))
    huge_sums(ck, ck.size(40, 600), ["outcome", "times", "transfers"])
    histories(ck, ["outcome", "times", "transfers"], ck.size(60, 800), ck.size(60, 800), fail=0.05, dated=0.5, small=("dates",))
    journals(ck, small_cases(ck, ck.size(120, 2500), ["outcome", "times", "transfers"]), "small journals")


@check("C06")
def c06(ck):
    journals(ck, gen_cases(ck, ck.size(350, 5000), profile(txns=(2, 9), prices=(1, 9), sametime=0.5, fail=0.4, fails=["order", "priceorder"], comments=0.03, asrt=0,
             asrt_only=0, exchange=0.2, priced=0.2), ["outcome", "order"]))
    journals(ck, gen_cases(ck, ck.size(5, 60), profile(txns=(30, 70), prices=(20, 40), accts=(2, 4), asrt=0, asrt_only=0, fail=0.1, fails=["order", "priceorder"], comments=0, sametime=0.6),
             ["outcome", "order"], "long"), "long journals")
    cases = []
    for i in range(ck.size(70, 1000)):
        ls, what = gen.journal("C06/files/%s/%d" % (ck.seed, i), profile(txns=(2, 9), prices=(1, 6), sametime=0.4, fail=0.6, fails=["order", "priceorder"], comments=0.03, asrt=0, asrt_only=0))
        cases.append(journal.Case(ck.next_id(), gen.split_includes(ls, ck.rng), ["outcome", "order"], note=what))
    journals(ck, cases, "in several files")
    histories(ck, ["outcome", "order"], ck.size(80, 1000), ck.size(120, 1500), fail=0.02, asrt=0, asrt_only=0, sametime=0.6, prices=(0, 9), txns=(2, 9), small=("dates",))
    journals(ck, small_cases(ck, ck.size(150, 3000), ["outcome", "order"]), "small journals")


@check("C08")
def c08(ck):
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(exchange=0.4, priced=0.4, curs=(2, 4), fail=0.12, fails=["priceamount", "pricenoval", "tiny"], comments=0.03, asrt=0.02, fine=0.4,
             tiny=0.1, big=0.05, zero=0.1, prices=(0, 3), dated=0.2), ["outcome", "auto", "written", "annot"]))
    journals(ck, gen_cases(ck, ck.size(40, 600), profile(many=0.8, exchange=0.5, priced=0.3, curs=(2, 4), txns=(1, 3), fail=0.1, fails=["tiny"], comments=0, asrt=0, prices=(0, 1)),
             ["outcome", "auto", "written", "annot"], "many"), "many postings")
    histories(ck, ["outcome", "auto", "written", "annot"], ck.size(70, 900), ck.size(60, 800), fail=0.03, priced=0.35, exchange=0.35, asrt=0.02, dated=0.25, small=("prices", "every1"))
    journals(ck, small_cases(ck, ck.size(150, 3000), ["outcome", "auto", "written", "annot"]), "small journals")


@check("C12")
def c12(ck):
    g = ["outcome", "values", "written", "annot", "marks", "logs"]
    f = ["amount", "amount", "priceamount", "assertamount", "commodity", "dbad", "badprice"]
    journals(ck, gen_cases(ck, ck.size(500, 7000), profile(declare_cur=0.4, fail=0.65, fails=f, thou=0.7, fine=0.4, big=0.1, tiny=0.1, curs=(1, 3), txns=(1, 5),
             comments=0.02, unnamed=0.25, oddname=0.3), g))
    amounts.explore(ck, g)


@check("C22")
def c22(ck):
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(accts=(3, 12), txns=(1, 4), declare_acct=0.5, oddacct=0.1, fail=0.25, fails=["dupaccount", "odd", "orphan"], comments=0.03,
             prices=(0, 1)), ["outcome", "tree"]))
    journals(ck, gen_cases(ck, ck.size(40, 500), profile(accts=(1, 6), txns=(1, 12), declare_acct=0.8, fail=0.1, fails=["dupaccount"], comments=0.03, prices=(0, 0), wide=1.0), ["outcome", "tree"], "wide"), "many accounts below one")
    histories(ck, ["outcome", "tree"], ck.size(40, 500), ck.size(120, 1500), fail=0.02, accts=(3, 12), txns=(0, 3), asrt=0)
    lines.both(ck, ["outcome", "tree"])
    journals(ck, small_cases(ck, ck.size(150, 3000), ["outcome", "tree"]), "small journals")


@check("C25")
def c25(ck):
    journals(ck, gen_cases(ck, ck.size(450, 6000), profile(comments=0.6, tags=0.45, dated=0.25, fail=0.4, declare_acct=0.6, prices=(0, 4), txns=(1, 4),
             fails=["junk", "orphan", "odd", "amount", "badprice", "commodity", "dbad", "baddate", "missing"]), ["comments", "desc", "outcome"]))
    lines.both(ck, ["outcome", "comments", "desc", "times"], sample=(150, 2500))
    journals(ck, small_cases(ck, ck.size(200, 3000), ["outcome", "comments", "desc", "times"]), "small journals")


FULL = ["outcome", "logs", "tree", "values", "annot", "lists", "balances", "times", "order", "written", "auto", "marks", "comments", "desc",
        "sources", "transfers", "running", "balanced"]


@check("C28")
def c28(ck):
    g = ["outcome", "reports"]
    bad = ["junk", "orphan", "odd", "amount", "badprice", "commodity", "dbad", "baddate", "missing", "priceamount", "assertamount"]
    prof = profile(comments=0.4, tags=0.5, dated=0.3, declare_acct=0.5, declare_cur=0.5, unnamed=0.3, fail=0.5, fails=bad, prices=(0, 4), txns=(1, 4))
    journals(ck, gen_cases(ck, ck.size(250, 4000), prof, g))
    journals(ck, gen_cases(ck, ck.size(150, 2000), profile(comments=0.1, dated=0.1, declare_acct=0.3, declare_cur=0.15, unnamed=0.1, fail=0.1, fails=bad, prices=(0, 4), txns=(1, 4), curs=(2, 5), priced=0.5,
             asrt=0.2, dflt=0.2), g, "undeclared"), "not declared")
    cases = []
    for i in range(ck.size(120, 2000)):
        ls, what = gen.journal("C28/%s/%d" % (ck.seed, i), prof)
        if i % 3:
            ls = gen.corrupt(ls, ck.rng, False)
        cases.append(journal.Case(ck.next_id(), gen.split_includes(ls, ck.rng), g, note=what))
    journals(ck, cases, "included and spoiled")
    lines.both(ck, g, sample=(120, 2500))
    journals(ck, small_cases(ck, ck.size(150, 3000), g), "small journals")


@check("C14")
def c14(ck):
    n = lambda q, t: ck.size(q, t)
    export.judge(ck, gen_cases(ck, n(150, 2500), profile(**dict(RICH, comments=0.4)), [], "rich"), "rich journals")
    export.judge(ck, gen_cases(ck, n(120, 2000), profile(fail=0.25, comments=0.3), [], "any"), "any journals")
    export.judge(ck, gen_cases(ck, n(100, 1500), profile(fail=0, unnamed=0.6, curs=(1, 5), priced=0.3, exchange=0.3, asrt=0.2, asrt_only=0.1, omit=0.5, prices=(0, 6), dflt=0.6), [], "styles"), "styles and prices")
    export.judge(ck, small_cases(ck, n(300, 5000), []), "small journals")


def plain_text(ck, n, **kw):
    cases = text_cases(ck, n, [], **kw)
    for c in cases:
        for f, k in (("accounts", 3), ("transactions", 2)):
            for i, l in enumerate(c.files.get(f, [])):
                w = l.split(":")
                if len(w) > k:
                    w[k] = export.plain(w[k]) or ("none%d" % i if k == 3 else "")
                    c.files[f][i] = ":".join(w)
    return cases


def plain_sql(ck, n, **kw):
    cases = [sqldb.generate(ck.rng, ck.next_id(), **kw) for _ in range(n)]
    for c in cases:
        for t in c.transactions:
            t[2] = export.plain(t[2] or "")
    return cases


@check("C30")
def c30(ck):
    n = lambda q, t: ck.size(q, t)
    export.databases(ck, plain_text(ck, n(160, 2500), fails=0.05), "text databases")
    export.databases(ck, plain_text(ck, n(60, 1000), wrong=0, fails=0, order=0, none=0, check=0.4, dated=0.4, txns=(3, 15), accts=(3, 14)), "right text databases")
    export.databases(ck, plain_sql(ck, n(120, 2000), fails=0, wrong=0, txns=(1, 12)), "PostgreSQL databases")
    export.databases(ck, plain_sql(ck, n(40, 800), fails=0.3, wrong=0, big=0.4, txns=(1, 6)), "PostgreSQL databases with big amounts")


@check("C15")
def c15(ck):
    n = ck.size(280, 3000)
    tok = Tokens()
    flat = {}
    cases = []
    for i in range(n):
        lines, what = gen.journal("C15/%s/%d" % (ck.seed, i), profile(txns=(2, 7), prices=(0, 5), comments=0.25, declare_acct=0.5, dated=0.1, fail=0.25,
                                  fails=["amount", "junk", "badprice", "unbalanced", "order", "order", "priceorder", "dupaccount", "baddate", "orphan", "odd"]))
        r = ck.rng
        files = gen.split_includes(lines, r)
        a = journal.Case(ck.next_id(), {"main.journal": lines}, ["outcome"], note=what)
        b = journal.Case(ck.next_id(), files, FULL + ["flat"], note=what, nonl=r.random() < 0.15, crlf=r.random() < 0.05)
        flat[b.id] = a.id
        cases += [a, b]
    seen = {}

    def observe(c, out, r, proj):
        t = tok([r, bare(proj)])
        seen[c.id] = t
        return dict(flat=seen[flat[c.id]], mine=t) if c.id in flat else {}
    journals(ck, cases, "included", observe=observe)
    # files that include themselves, what is not there, or directories
    cases = []
    for i in range(ck.size(130, 1500)):
        r = ck.rng
        lines, what = gen.journal("C15b/%s/%d" % (ck.seed, i), profile(txns=(1, 4), prices=(0, 2), comments=0.2, fail=0.1))
        files = gen.split_includes(lines, r)
        names = sorted(files)
        for k in range(r.randint(1, 3)):
            f = r.choice(names)
            ls = files[f]
            at = r.randint(0, len(ls))
            t = r.choice(["nothing.journal", "sub", "../main.journal", "main.journal", "@ABS@/" + r.choice(names), "@ABS@/" + r.choice(names), r.choice(names),
                          "/nonexistent", "./../" + r.choice(names), ".", "", "sub/../main.journal", "x y.journal", "@ABS@/" + f])
            ls.insert(at, "include " + t)
        cases.append(journal.Case(ck.next_id(), files, FULL, note=what + ["include"], dirs=["sub"]))
    journals(ck, cases, "odd includes")


def use_ops(c):
    return [dict(op="open", slot="L", src=c.path(c.main)), dict(op="proj", slot="L"), dict(op="print", slot="L"), dict(op="clone", slot="L", to="C"),
            dict(op="proj", slot="C"), dict(op="fill", slot="C"), dict(op="print", slot="C"), dict(op="export", slot="C"), dict(op="fill", slot="L"),
            dict(op="proj", slot="L"), dict(op="export", slot="L"), dict(op="close", slot="L")]


def afterwards(c, out, r, proj):
    return dict(after=[o["res"] for o in out[1:]] if r == "ok" else [])


def before_something(r, ls):
    """Where to put a line; seldom where nothing follows."""
    k = [i for i, l in enumerate(ls) if l.strip()]
    return r.choice(k + k + [0, len(ls)])


def c23_journals(ck):
    cases = []
    hard = ["unbalanced", "order", "dupaccount", "twoomitted", "assertion", "deadlock", "overflow", "omitmulti"]
    for i in range(ck.size(420, 8000)):
        r = ck.rng
        lines, what = gen.journal("C23/%s/%d" % (ck.seed, i), profile(txns=(1, 5), prices=(0, 3), fail=0.1, fails=hard, comments=0.2, declare_acct=0.5, asrt=0.1, big=0.1))
        wild = r.random() < 0.4
        lines = gen.corrupt(lines, r, wild)
        files = {"main.journal": lines}
        if r.random() < 0.2:
            files = gen.split_includes(lines, r)
        cases.append(journal.Case(ck.next_id(), files, ["alive"] if wild else ["alive", "outcome", "logs"], note=what, nonl=r.random() < 0.1))
    journals(ck, cases, "spoiled", ops=use_ops, observe=afterwards)
    # what cannot be read
    cases = []
    for i in range(ck.size(120, 1500)):
        r = ck.rng
        lines, what = gen.journal("C23r/%s/%d" % (ck.seed, i), profile(txns=(1, 6), prices=(0, 2), fail=0.0, comments=0.2))
        files = gen.split_includes(lines, r) if r.random() < 0.6 else {"main.journal": lines}
        names = sorted(files)
        k = i % 6
        g = ["alive", "outcome", "logs", "values", "order", "tree"]
        dirs, main = [], "main.journal"
        if k == 0:
            main = r.choice(["absent.journal", "sub/absent", "main.journal/x"])
        elif k == 1:
            main, dirs = "adir", ["adir"]
        elif k == 2:
            f = r.choice(names)
            files[f] = list(files[f])
            files[f].insert(r.randint(0, len(files[f])), "include " + r.choice(["absent.journal", "../absent", "/nonexistent/absent", "."]))
        else:
            f = r.choice([x for x in names if any(l.strip() for l in files[x])] or names)
            files[f] = list(files[f])
            n = r.choice([2100, 4095, 4096, 4097, 60000, 65535, 65536, 65536, 65537, 70000, 131072, 200000, 1 << 20])
            files[f].insert(before_something(r, files[f]), r.choice(";#*") + " " + "x" * (n - 2))
        cases.append(journal.Case(ck.next_id(), files, g, note=what, dirs=dirs, main=main))
    journals(ck, cases, "unreadable", ops=use_ops, observe=afterwards)


def c23_text(ck):
    r = ck.rng
    cases = text_cases(ck, ck.size(60, 1000), ["alive", "outcome"], wrong=0.8)
    for _ in range(ck.size(80, 1500)):
        f = textdb.Maker(r, wrong=0.5).files()
        cases.append(textdb.Case(ck.next_id(), {k: textdb.garble(v, r) for k, v in f.items()}, ["alive"]))
    textdb.judge(ck, cases, "spoiled text databases", ops=textdb.use_ops)
    cases = []
    for i in range(ck.size(60, 800)):
        f = textdb.Maker(r, wrong=0.2, fails=0.05).files()
        dirs, names = [], sorted(f)
        if i % 5 == 0:
            f.pop(r.choice(["accounts", "accounts", "transactions"]), None)
        elif i % 5 == 1:
            k = r.choice(names)
            f.pop(k)
            dirs = [k]
        elif i % 15 == 2:
            f = {}
        else:
            k = r.choice(names)
            n = r.choice([2100, 4096, 65534, 65535, 65536, 65537, 70000, 131072, 300000])
            f[k].insert(before_something(r, f[k]), r.choice("#xé1") + "x" * (n - 1))
        cases.append(textdb.Case(ck.next_id(), f, ["alive", "outcome", "tree", "values", "order", "lists"], dirs=dirs))
    textdb.judge(ck, cases, "unreadable text databases", ops=textdb.use_ops)


@check("C23")
def c23(ck):
    c23_journals(ck)
    lines.both(ck, ["alive", "outcome", "logs"], every=0, ops=use_ops, observe=afterwards)
    c23_text(ck)


def text_cases(ck, n, groups, **kw):
    return [textdb.Case(ck.next_id(), textdb.Maker(ck.rng, **kw).files(), groups, crlf=ck.rng.random() < 0.04, nonl=ck.rng.random() < 0.1) for _ in range(n)]


@check("C19")
def c19(ck):
    textdb.judge(ck, text_cases(ck, ck.size(300, 5000), textdb.ALL), "text databases")
    textdb.judge(ck, text_cases(ck, ck.size(150, 2500), textdb.ALL, wrong=0.0, fails=0.0, order=0.0, none=0.0, check=0.4, txns=(3, 15), accts=(3, 14)), "right text databases")
    textdb.modelled(ck)


@check("C29")
def c29(ck):
    make = lambda n, **kw: [sqldb.generate(ck.rng, ck.next_id(), **kw) for _ in range(n)]
    sqldb.judge(ck, make(ck.size(250, 4000)), "databases")
    sqldb.judge(ck, make(ck.size(120, 2000), fails=0, wrong=0, big=0.3, txns=(4, 20), accts=(4, 14)), "right databases")
    sqldb.judge(ck, make(ck.size(80, 1500), wrong=1.0, txns=(1, 6)), "spoiled databases")
    sqldb.modelled(ck)


@check("C09")
def c09(ck):
    cases = gen_cases(ck, ck.size(500, 5000), profile(txns=(3, 14), accts=(2, 5), dated=0.35, fail=0, comments=0, prices=(0, 0), omit=0.4, sametime=0.4, asrt=0.02, declare_acct=0.6), [])
    query.judge_queries(ck, cases, query.ledger_questions(ck.rng, 25), "history")
    query.judge_queries(ck, built.explored(ck, "dates", [], sample=ck.size(80, 1500)), query.ledger_questions(ck.rng, 20), "modelled history")
    query.judge_queries(ck, small_cases(ck, ck.size(80, 1500), []), query.ledger_questions(ck.rng, 20), "small history")


@check("C07")
def c07(ck):
    r = ck.rng
    cases = [journal.Case(ck.next_id(), {"main.journal": query.price_journal(r, r.randint(1, r.choice([4, 8, 25])))}, []) for _ in range(ck.size(330, 5000))]
    cases += gen_cases(ck, ck.size(60, 1000), profile(txns=(1, 5), prices=(2, 10), curs=(2, 5), exchange=0.4, priced=0.4, fail=0, comments=0, asrt=0, omit=0.2), [])
    query.judge_queries(ck, cases, query.conversions(r, 25), "conversions")
    query.modelled_prices(ck)
    query.judge_queries(ck, small_cases(ck, ck.size(100, 2000), []), query.conversions(r, 25), "small journals")


RICH = dict(txns=(2, 6), prices=(0, 4), comments=0.35, tags=0.4, asrt=0.2, priced=0.3, exchange=0.2, dated=0.3, declare_acct=0.6, fail=0.0, curs=(1, 4))


def stories(ck, n, story, prof, what, sources=1, nslots=3, race=False, env=None, text=0.0):
    tok = Tokens()
    cs = slots.make_journals(ck, n * sources, prof, what, text=text)
    ref = slots.reference(ck, [slots.source(c) for c in cs], tok)
    sts, files = [], {}
    for i in range(n):
        mine = cs[i * sources:(i + 1) * sources]
        st = slots.Story(mine[0].id, [slots.source(c) for c in mine], nslots)
        files[st.id] = [files_text(c) for c in mine]
        story(st, ck.rng)
        sts.append(st)
    slots.judge_stories(ck, sts, what, tok, ref, race=race, files=files, env=env)
    for c in cs:
        c.clean()


@check("C10")
def c10(ck):
    ck.model("MCSlots")
    stories(ck, ck.size(500, 4000), slots.story_clone, profile(**RICH), "clones", nslots=4, text=0.12)


@check("C11")
def c11(ck):
    stories(ck, ck.size(150, 2000), slots.story_fill, profile(**RICH), "again", nslots=3, text=0.1)
    histories(ck, built.ALL, ck.size(200, 3000), ck.size(60, 800), txns=(1, 7), small=("spoiled", "every1"))


@check("C20")
def c20(ck):
    ck.model("MCSlots")
    stories(ck, ck.size(180, 1500), slots.story_many, profile(**dict(RICH, fail=0.15)), "one after another", sources=3, nslots=4, text=0.2)
    stories(ck, ck.size(60, 700), slots.story_par, profile(**dict(RICH, fail=0.1)), "concurrently", sources=3, nslots=9, text=0.2, race=True, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "8"})


@check("C34")
def c34(ck):
    ck.model("MCSlots")
    both = profile(**dict(RICH, txns=(2, 8), curs=(2, 5), prices=(1, 7), sametime=0.5))
    stories(ck, ck.size(220, 2500), slots.story_ask, both, "questions", nslots=6, text=0.15, race=True, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "8"})
    stories(ck, ck.size(150, 1500), slots.story_ask, profile(**RICH), "questions in sequence", nslots=4, text=0.15)


@check("C26")
def c26(ck):
    stories(ck, ck.size(200, 1500), slots.story_again, profile(**dict(RICH, txns=(3, 9), prices=(2, 8), priced=0.5, exchange=0.3, curs=(2, 5), fail=0.05)), "opened again", sources=2, nslots=8, text=0.1)
    cli.judge(ck, cli_cases(ck, ck.size(25, 500), "same", curs=(2, 6), exchange=0.5, prices=(2, 8)), same_plan(ck.rng), "the same command again", judged=False)
    cli.judge(ck, many_currencies(ck, ck.size(24, 300)), same_plan(ck.rng, 0.1, ("incomestatement",) * 2 + ("delta", "balance")), "the same command again, with many currencies", judged=False)


CLI = dict(txns=(2, 9), prices=(0, 6), accts=(3, 9), curs=(1, 4), comments=0.06, tags=0, asrt=0.05, asrt_only=0.0, priced=0.25, exchange=0.2, dated=0.25, declare_acct=0.6, fail=0.0,
           dflt=0.8, years=(1990, 2024), comps=cli.COMPS, big=0.0, oddacct=0.0)


def cli_cases(ck, n, tag, **kw):
    return [journal.Case(ck.next_id(), {"main.journal": gen.journal("%s/%s/%s/%d" % (ck.prop, tag, ck.seed, i), profile(**dict(CLI, **kw)))[0]}, []) for i in range(n)]


def many_currencies(ck, n):
    return cli_cases(ck, n, "currencies", curs=(4, 8), txns=(10, 22), accts=(3, 6), comps=["Income", "Expense", "Income", "Expense", "Assets", "Food"], exchange=0.05, priced=0.05, dated=0.1)


def same_plan(r, limits=0.3, kinds=("balance",) * 6 + ("incomestatement",) * 4 + ("delta",) * 3 + ("price", "stats", "accounts", "print")):
    def plan(c, p):
        runs = [cli.command(r, p, limits, kinds) for _ in range(6)]
        return runs, [([k], False, False) for k in range(len(runs)) for _ in range(4)]
    return plan


@check("C16")
def c16(ck):
    cli.judge(ck, cli_cases(ck, ck.size(150, 1200), "reports"), lambda c, p: ([cli.command(ck.rng, p, 0.15) for _ in range(14)], []), "reports")
    cli.judge(ck, cli_cases(ck, ck.size(45, 400), "market", curs=(2, 5), prices=(3, 10), exchange=0.5),
              lambda c, p: ([cli.command(ck.rng, p, 0.25, ("balance", "delta", "price", "price")) for _ in range(14)], []), "reports with many prices")
    cli.judge(ck, many_currencies(ck, ck.size(24, 300)), lambda c, p: ([cli.command(ck.rng, p, 0.15) for _ in range(12)], []), "reports with many currencies")
    cli.judge(ck, small_cases(ck, ck.size(60, 1000), []), lambda c, p: ([cli.command(ck.rng, p, 0.15) for _ in range(10)], []), "small journals")


@check("C17")
def c17(ck):
    kinds = cli.KINDS + ("print",) * 3
    cli.judge(ck, cli_cases(ck, ck.size(250, 2000), "limits", dated=0.4, sametime=0.4), lambda c, p: ([cli.command(ck.rng, p, 0.75, kinds) for _ in range(14)], []), "limits")
    cli.judge(ck, small_cases(ck, ck.size(60, 1000), []), lambda c, p: ([cli.command(ck.rng, p, 0.75, kinds) for _ in range(10)], []), "small journals")


def chain_plan(r):
    def plan(c, p):
        kinds = ("balance",) * 5 + ("incomestatement", "delta", "delta", "price", "stats", "accounts", "print", "print")
        runs = [cli.command(r, p, 0.4, kinds) for _ in range(8)]
        chains = []
        for _ in range(5):
            chains.append(([r.randrange(len(runs)) for _ in range(r.randint(2, 5))], r.random() < 0.1, r.random() < 0.1))
        return runs, chains
    return plan


@check("C18")
def c18(ck):
    cli.judge(ck, cli_cases(ck, ck.size(250, 2000), "chains"), chain_plan(ck.rng), "chains", judged=False)
    cli.judge(ck, small_cases(ck, ck.size(40, 700), []), chain_plan(ck.rng), "small journals", judged=False)


@check("C31")
def c31(ck):
    r = ck.rng
    cases = [journal.Case(ck.next_id(), {"main.journal": query.price_journal(r, r.randint(2, r.choice([4, 8, 25]))) + ["D 1.00 " + r.choice(["EUR", "USD", "X"])] * (r.random() < 0.5)}, []) for _ in range(ck.size(200, 1500))]
    cases += cli_cases(ck, ck.size(80, 600), "momentum", curs=(2, 5), prices=(3, 12), exchange=0.4)
    momentum.judge(ck, cases, "growth")
    momentum.judge(ck, small_cases(ck, ck.size(60, 800), []), "small journals")


@check("C32")
def c32(ck):
    n = lambda q, t: ck.size(q, t)
    tables.judge(ck, cli_cases(ck, n(90, 1500), "tables", dated=0.4, sametime=0.4), "journals")
    tables.judge(ck, many_currencies(ck, n(12, 200)), "journals with many currencies")
    tables.judge(ck, plain_text(ck, n(50, 800), wrong=0, fails=0), "text databases")
    tables.judge(ck, plain_sql(ck, n(40, 800), fails=0, wrong=0, txns=(1, 12)), "PostgreSQL databases")
    tables.judge(ck, small_cases(ck, n(40, 700), []), "small journals")


@check("C33")
def c33(ck):
    n = lambda q, t: ck.size(q, t)
    r = ck.rng
    hard = ["unbalanced", "order", "dupaccount", "twoomitted", "assertion", "deadlock", "overflow", "hugeassert", "omitmulti", "priceorder", "tiny"]
    jobs = lambda c: commands.journal_jobs(r, c.path(c.main), c.path("nothing.journal"))
    journals(ck, gen_cases(ck, n(110, 1500), profile(txns=(1, 6), prices=(0, 4), comments=0.2, fail=0.6, fails=hard), ["commands"]), "journals", jobs=jobs)
    journals(ck, small_cases(ck, n(40, 700), ["commands"]), "small journals", jobs=jobs)
    cases = []
    for i in range(n(40, 600)):
        ls, what = gen.journal("C33/%s/%d" % (ck.seed, i), profile(txns=(0, 3), prices=(0, 2), fail=0.1, fails=hard))
        files = gen.split_includes(gen.corrupt(ls, r, False), r)
        k, dirs, main = r.random(), [], "main.journal"
        if k < 0.2:
            main = "absent.journal"
        elif k < 0.35:
            main, dirs = "adir", ["adir"]
        elif k < 0.6:
            f = r.choice(sorted(files))
            files[f] = list(files[f])
            files[f].insert(before_something(r, files[f]), "; " + "x" * r.choice([60000, 65536, 200000]))
        elif k < 0.7:
            files["main.journal"] = []
        cases.append(journal.Case(ck.next_id(), files, ["commands"], note=what, dirs=dirs, main=main))
    journals(ck, cases, "unreadable journals", jobs=jobs)
    cases = text_cases(ck, n(40, 700), ["commands"], fails=0.5)
    for i, c in enumerate(cases):
        if i % 4 == 0:
            c.files.pop(r.choice(sorted(c.files)))
        elif i % 4 == 1:
            f = r.choice(sorted(c.files))
            c.files[f].insert(before_something(r, c.files[f]), "#" + "x" * r.choice([60000, 65536, 200000]))
    textdb.judge(ck, cases, "text databases", jobs=lambda c: commands.database_jobs(r, c.source(), c.path("absent")))
    cases = [sqldb.generate(r, ck.next_id(), wrong=0.5, txns=(1, 5)) for _ in range(n(40, 700))]
    for c in cases:
        c.groups = ["commands"]
    sqldb.judge(ck, cases, "PostgreSQL databases", jobs=lambda c, src: commands.database_jobs(r, src, "/nonexistent/nothing"))


@check("C21")
def c21(ck):
    r = ck.rng
    registry.check(ck, [registry.registry_case(r) for _ in range(ck.size(500, 5000))], "registry")
    registry.check(ck, [registry.registry_case(r) for _ in range(ck.size(100, 1500))], "registry, with the race detector", race=True, env={"GORACE": "halt_on_error=1 exitcode=66"})
    registry.check(ck, [registry.ask_case(r) for _ in range(ck.size(40, 400))], "operations of backends")
    registry.modelled(ck)


@check("C13")
def c13(ck):
    r = ck.rng
    values.judge(ck, [values.shows(r, 40) for _ in range(ck.size(100, 1500))], "texts of values")
    values.judge(ck, [values.lists(r, 15) for _ in range(ck.size(40, 500))], "texts of balances")
    values.modelled_shows(ck)


@check("C24")
def c24(ck):
    r = ck.rng
    values.judge(ck, [values.sums(r, r.choice([4, 10, 30, 60]), r.randint(1, 4)) for _ in range(ck.size(500, 6000))], "operations with balances")
    values.modelled_sums(ck)


def all_days(years):
    for y in years:
        for m in range(1, 13):
            for d in range(1, 32):
                yield "%04d-%02d-%02d" % (y, m, d)


@check("C27")
def c27(ck):
    r = ck.rng
    texts = [values.date_text(r) for _ in range(ck.size(20000, 150000))]
    ys = r.sample(range(0, 10000), 4) + [1900, 2000, 2023, 2024, 2100] if ck.quick() else sorted(set(range(1850, 2151)) | set(r.sample(range(0, 10000), 300)) | {0, 4, 100, 400, 9999})
    texts += list(all_days(ys))
    values.judge(ck, [values.dates(texts[i:i + 200]) for i in range(0, len(texts), 200)], "dates")
    first, last = ck.size((1896, 1904), (0, 9999))
    ck.model("MCCalendar", env=dict(FIRST=str(first), LAST=str(last)))


TECH = "TLA+ specification checked with TLC; trace validation of real executions against it"
TECHNIQUE = {}
NOTE = ("Every generated case is executed by the real code and its complete result is compared by TLC with what the specification allows. "
        "Trusted: the specification's reading of the property, the projection made by the harness, TLC. Generated cases are sampled (seeded); the states of the small models are explored exhaustively.")
NOTES = {}
NOT = {}
