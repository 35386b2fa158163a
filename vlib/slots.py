"""Several ledgers in one process (C10, C11, C20, C26): judged with spec/ConfSlots.tla."""
import json
from . import core, enc, gen, journal, textdb
from .check import Tokens, files_text

MUTATIONS = ["acct.name", "acct.code", "acct.append", "acct.swap", "acct.start", "acct.splits", "acct.children", "txn.desc", "txn.time", "txn.remove", "txn.splits",
             "split.value", "split.time", "split.balance", "split.account", "split.comment", "comment.edit", "comment.clear", "assert.clear", "splitprice.clear",
             "assert.set", "cur.style", "cur.name", "cur.new", "cur.default", "price.value", "price.remove"]
BREAKING = ("txn.remove", "txn.splits")   # what refers to the removed things is put right by Fill


def seen(proj):
    """What there is in a ledger; not the comments of things which are not in it (nobody can ask for them)."""
    return {k: v for k, v in proj.items() if k != "stray"}


class Story:
    """What is done to some ledgers, as operations of the harness and as events of the specification."""

    def __init__(self, cid, sources, nslots):
        self.id, self.sources, self.nslots = cid, sources, nslots
        self.ops, self.events = [], []    # events: (record, index of its operation, ...)
        self.broken = set()
        self.par = None

    def slot(self, s):
        return "S%d" % s

    def add(self, ev, op):
        if self.par is not None:
            self.par[-1].append((ev, op))
        else:
            self.events.append((ev, len(self.ops), None))
            self.ops.append(op)

    def open(self, s, src):
        self.broken.discard(s)
        self.add(dict(op="open", slot=s, src=src), dict(op="open", slot=self.slot(s), src=self.sources[src - 1], quiet=True))

    def clone(self, s, t):
        self.add(dict(op="clone", slot=s, to=t), dict(op="clone", slot=self.slot(s), to=self.slot(t)))

    def change(self, s, kind, i, j):
        if kind in BREAKING:
            self.broken.add(s)
        self.add(dict(op="change", slot=s), dict(op="mutate", slot=self.slot(s), k=kind, i=i, j=j))

    def fill(self, s):
        self.add(dict(op="fill", slot=s), dict(op="fill", slot=self.slot(s)))

    def ask(self, s, op):
        self.add(dict(op="ask", slot=s, q=op), dict(op, slot=self.slot(s)))

    def look(self, s):
        self.add(dict(op="look", slot=s), dict(op="proj", slot=self.slot(s)))

    def look_all(self):
        for s in range(1, self.nslots + 1):
            self.look(s)

    def heap(self):
        k = len(self.ops)
        self.events.append((dict(op="heap"), k, self.nslots))
        for s in range(1, self.nslots + 1):
            self.ops.append(dict(op="heap", slot=self.slot(s)))

    # concurrently: threads between begin and end; thread() starts the next one
    def begin(self):
        self.par = []

    def thread(self):
        self.par.append([])

    def end(self):
        k = len(self.ops)
        self.ops.append(dict(op="par", ops=[[op for _, op in th] for th in self.par]))
        for a, th in enumerate(self.par):
            for b, (ev, _) in enumerate(th):
                self.events.append((ev, k, (a, b)))
        self.par = None

    def record(self, out, refs, tok):
        """The events with what the code did; None if it did not even end."""
        if len(out) != len(self.ops):
            return None
        evs = []
        for ev, k, x in self.events:
            ev = dict(ev)
            o = out[k]
            if isinstance(x, tuple):
                o = o["par"][x[0]][x[1]] if "par" in o else dict(res="crash")
            if ev["op"] == "heap":
                ev["objects"] = [sum((v for kk, v in out[k + n].items() if isinstance(v, list)), []) for n in range(x)]
            elif ev["op"] == "look":
                ev["content"] = tok(seen(o)) if o["res"] == "ok" else 0 if o["res"] == "none" else -2
            else:
                ev["res"] = o["res"]
                if ev["op"] == "ask":
                    ev["question"], ev["answer"] = tok(["?", ev.pop("q")]), tok(o)
            evs.append(ev)
        return dict(id=self.id, refs=refs, slots=self.nslots, events=evs)


def questions(r):
    q = [dict(op="export"), dict(op="flush"), dict(op="close"), dict(op="refresh"), dict(op="print")]
    t = lambda: r.choice([0, 946728000, 1577880000, 1262304000, 4102444800])
    q += [dict(op="convert", amt=12345678900, cur=r.choice([1, 2, -1]), cur2=r.choice([1, 2, 3, -1]), time=t()) for _ in range(4)]
    q += [dict(op="balance", i=1, time=t()), dict(op="balance", i=1), dict(op="interval", time=0, time2=t()), dict(op="inacct", i=1), dict(op="account", i=1)]
    return q


def random_change(st, r, s):
    st.change(s, r.choice(MUTATIONS), r.randint(0, 20), r.randint(0, 5))


def story_clone(st, r):
    """C10: copies, changes and copies of changed ledgers."""
    st.open(1, 1)
    st.look(1)
    for q in r.sample(questions(r), 4):
        st.ask(1, q)
    n = 1
    for _ in range(r.randint(1, 3)):
        random_change(st, r, 1) if r.random() < 0.35 else None
        st.look(1)
        if 1 in st.broken:
            st.fill(1)
            st.look(1)
        src = 1 if n == 1 or r.random() < 0.6 else r.randint(1, n)
        if src in st.broken:
            continue
        n += 1
        st.clone(src, n)
        st.look(n)
        st.look(src)
        st.heap()
        for q in r.sample(questions(r), 3):
            st.ask(n, q)
        if n == st.nslots:
            break
    for _ in range(r.randint(3, 9)):
        s = r.randint(1, n)
        if r.random() < 0.2:
            st.fill(s)
        else:
            random_change(st, r, s)
        for t in range(1, n + 1):
            st.look(t)
    st.heap()
    ok = [s for s in range(1, n + 1) if s not in st.broken]
    if ok and n < st.nslots:
        st.clone(r.choice(ok), n + 1)
        for t in range(1, n + 2):
            st.look(t)
        st.heap()


def story_fill(st, r):
    """C11: computing again, of the ledger and of copies of it."""
    st.open(1, 1)
    st.look(1)
    n = 1
    for _ in range(r.randint(3, 8)):
        k = r.random()
        s = r.randint(1, n)
        if k < 0.6:
            st.fill(s)
        elif k < 0.8 and n < st.nslots:
            n += 1
            st.clone(s, n)
        else:
            st.ask(s, r.choice(questions(r)))
        for t in range(1, n + 1):
            st.look(t)
    st.heap()


def story_many(st, r):
    """C20: several sources, one after another."""
    for _ in range(r.randint(6, 16)):
        s = r.randint(1, st.nslots)
        k = r.random()
        if k < 0.35 or _ < 2:
            st.open(s, r.randint(1, len(st.sources)))
        elif k < 0.5:
            t = r.choice([x for x in range(1, st.nslots + 1) if x != s])
            if s not in st.broken:
                st.clone(s, t)
                st.broken.discard(t)
        elif k < 0.65:
            random_change(st, r, s)
        elif k < 0.75:
            st.fill(s)
        elif s not in st.broken:
            for q in r.sample(questions(r), 2):
                st.ask(s, q)
        st.look_all()
    if not st.broken:
        st.heap()


def story_par(st, r):
    """C20: the same, by several goroutines, each one with its own ledgers."""
    st.open(1, 1)
    st.look(1)
    per = 2
    st.begin()
    for th in range((st.nslots - 1) // per):
        a, b = 2 + th * per, 3 + th * per
        st.thread()
        for _ in range(r.randint(1, 2)):
            st.open(a, r.randint(1, len(st.sources)))
            st.look(a)
            st.clone(a, b)
            st.look(b)
            for q in r.sample(questions(r), 2):
                st.ask(a, q)
            st.fill(a)
            st.look(a)
            st.change(b, r.choice(["cur.style", "txn.desc", "split.value", "acct.name", "cur.new", "comment.edit", "price.value", "cur.name"]), r.randint(0, 9), r.randint(0, 3))
            st.fill(a)
            st.look(a)
            st.ask(b, dict(op="close")) if r.random() < 0.3 else None
            st.look(a)
    st.end()
    st.look_all()
    st.heap()


def all_questions(r, n):
    """Everything a ledger can be asked, about several accounts, dates and currencies."""
    t = lambda: r.choice([0, 946728000, 1577880000, 1262304000, 4102444800, r.randint(600000000, 1900000000)])
    q = [dict(op="export"), dict(op="print"), dict(op="flush"), dict(op="refresh"), dict(op="close")]
    for i in r.sample(range(1, 13), r.randint(1, 4)) + [1, 2]:
        q += [dict(op="balance", i=i, time=t()), dict(op="balance", i=i, j=r.randint(1, 9)), dict(op="balance", i=i), dict(op="inacct", i=i), dict(op="account", i=i)]
    q += [dict(op="interval", time=t(), time2=t()) for _ in range(2)] + [dict(op="interval", time=0, time2=t())]
    q += [dict(op="interval", j=r.randint(1, 9), i=r.randint(1, 9)) for _ in range(3)]
    amount = lambda: r.choice([12345678900, -100000000, 1, 7 * 10 ** 12])
    q += [dict(op="convert", amt=amount(), cur=r.choice([1, 2, 3, -1]), cur2=r.choice([1, 2, 3, -1]), time=t()) for _ in range(4)]
    q += [dict(op="convert", amt=amount(), j=r.randint(1, 9)) for _ in range(3)]
    return [r.choice(q) for _ in range(n)]


def story_ask(st, r):
    """C34: questions, one after another and from several goroutines at the same time."""
    st.open(1, 1)
    st.look(1)
    qs = all_questions(r, 12)
    for q in qs:
        st.ask(1, q)
        if r.random() < 0.3:
            st.look(1)
    st.look(1)
    for q in r.sample(qs, len(qs)):
        st.ask(1, q)
    if r.random() < 0.5:              # in a copy, the same answers
        st.clone(1, st.nslots)
        for q in r.sample(qs, 6):
            st.ask(st.nslots, q)
    st.look(1)
    hot = r.sample(qs, 4)             # what all of them ask
    st.begin()
    for th in range(st.nslots - 2):
        st.thread()
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < 0.15:
                st.look(1)
            elif k < 0.3:
                st.clone(1, 2 + th)
                st.look(2 + th)
                st.ask(2 + th, r.choice(qs))
            else:
                st.ask(1, r.choice(hot if k < 0.75 else qs))
    st.end()
    st.look_all()
    for q in qs:
        st.ask(1, q)
    st.look(1)


def story_again(st, r):
    """C26: the same source again and again."""
    qs = questions(r)
    for s in range(1, st.nslots + 1):
        st.open(s, 1)
        st.look(s)
        for q in qs:
            st.ask(s, q)
        for src in range(2, len(st.sources) + 1):
            st.open(s, src)


def make_journals(ck, n, prof, tag, split=0.3, text=0.0):
    cs = []
    for i in range(n):
        if text and ck.rng.random() < text:      # a text database
            c = textdb.Case(ck.next_id(), textdb.Maker(ck.rng, check=0.2, txns=(1, 8)).files(), [])
            c.write()
            cs.append(c)
            continue
        lines, what = gen.journal("%s/%s/%s/%d" % (ck.prop, tag, ck.seed, i), prof)
        files = gen.split_includes(lines, ck.rng) if ck.rng.random() < split else {"main.journal": lines}
        c = journal.Case(ck.next_id(), files, [], note=what)
        c.write()
        cs.append(c)
    return cs


def source(c):
    return c.source() if isinstance(c, textdb.Case) else c.path(c.main)


def reference(ck, sources, tok, binary=None):
    """What every source contains when it is opened alone, in its own process: {source: content}."""
    ref = {}
    binary = binary or ck.harness()
    from concurrent.futures import ThreadPoolExecutor

    def one(s):
        w = core.Worker(binary, env={"GOMAXPROCS": "1"})
        try:
            return s, w.run(dict(id=1, ops=[dict(op="open", slot="A", src=s, quiet=True), dict(op="proj", slot="A")]))
        finally:
            w.stop()
    with ThreadPoolExecutor(core.CPUS) as ex:
        for s, out in ex.map(one, sources):
            if out[0]["res"] == "ok":
                ref[s] = tok(seen(out[1]))
            elif out[0]["res"] == "error":
                ref[s] = 0
            else:
                ref[s] = -3   # ends or blocks the process: no content at all
    return ref


def judge_stories(ck, stories, what, tok, ref, race=False, timeout=60.0, files=None, env=None):
    res = core.run_cases(ck.harness(race), [dict(id=s.id, ops=s.ops) for s in stories], timeout=timeout, env=env)
    recs = []
    by = {}
    for s in stories:
        rec = s.record(res[s.id], [ref[x] for x in s.sources], tok)
        if rec is None:
            ck.violation("%s %s: the code ends in %s" % (what, s.id, res[s.id][0].get("res")), dict(ops=s.ops, code=res[s.id], files=files.get(s.id) if files else None))
            continue
        recs.append(rec)
        by[s.id] = s
    if not recs:
        return
    v, st = journal.judge("ConfSlots", recs)
    ck.add_states(st)
    ck.traces += len(recs)
    for rec in recs:
        verdict, why, at, n = v[rec["id"]]
        ck.note(what + ": events", n)
        s = by[rec["id"]]
        if verdict == "accepted":
            if len(ck.samples) < 3:
                ck.samples.append(dict(sources=len(s.sources), events=[e for e in rec["events"] if e["op"] != "heap"][:12]))
        else:
            k = int(at) - 1 if why != ["nonsense"] else 0
            ck.violation("%s %s: %s, at event %d: %s" % (what, rec["id"], why, k, {a: b for a, b in rec["events"][k].items() if a != "objects"}),
                         dict(why=why, event=k, ops=s.ops, code=res[s.id] if len(json.dumps(res[s.id])) < 3000000 else "too long",
                              files=files.get(s.id) if files else None))
