"""Texts of amounts explored with spec/MCMoney.tla, and read by the code in journals."""
from . import journal
from .check import journals

# amounts that give a currency its marks, as MarkSets of MCMoney
STYLES = [None, "1.50", "1,5", "1.000,00", "1,000.00", "1'000.00", "1'5"]


def name(i):
    s = ""
    while True:
        s = "abcdefghij"[i % 10] + s
        i //= 10
        if not i:
            return "n" + s


def journal_of(texts, r):
    out = []
    for i, t in enumerate(texts):
        c = name(i)
        v = r.choice([t + " " + c, t + c, c + " " + t, c + t] if t[0] in "+-0123456789" else [c + " " + t, c + t, t + " " + c])
        k = r.choice(STYLES)
        if k:
            out.append("commodity " + r.choice([k + " " + c, c + " " + k, c + k]))
        out.append(r.choice(["P 2020-01-01 zz " + v] * 3 + ["commodity " + v, "D " + v]))
    return out


def limits(r, n):
    """Amounts near the largest one that can be stored, with any number of decimals."""
    out = []
    for _ in range(n):
        d = r.randint(0, 8)
        x = (2**63 - 1) // 10**(8 - d) + r.choice([-10, -2, -1, 0, 0, 1, 1, 2, 3, 9, 10, 11, r.randint(-1000, 1000), r.randint(0, 10**r.randint(1, 18))])
        if r.random() < 0.1:
            x = x * 10 + r.randint(0, 9)
        t = str(x)
        i, f = t[:len(t) - d] or "0", t[len(t) - d:] if d else ""
        dec = r.choice(".,")
        if r.random() < 0.3:
            sep = r.choice([c for c in ",.'_" if c != dec])
            i = sep.join([i[max(0, k - 3):k] for k in range(len(i), 0, -3)][::-1])
        if r.random() < 0.1:
            i = "0" * r.randint(1, 4) + i
        out.append(r.choice(["", "", "-", "+"]) + i + (dec + f if f else ""))
    return out


def explore(ck, groups):
    texts = []
    for cfg in ("chars", "groups", "long"):
        found = ck.explored("MCMoney", "MCMoney_%s.cfg" % cfg, env=dict(LONGEST=ck.size("3", "5")), most=ck.size(400, 8000))
        texts += [bytes(x).decode() for x in found]
    texts += limits(ck.rng, ck.size(600, 6000))
    ck.rng.shuffle(texts)
    ck.note("texts of amounts", len(texts))
    n = ck.size(60, 100)
    journals(ck, [journal.Case(ck.next_id(), {"main.journal": journal_of(texts[i:i + n], ck.rng)}, groups) for i in range(0, len(texts), n)], "amounts")
