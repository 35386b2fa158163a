"""Encoding of what the code did in the terms of the specification."""
EPOCH = 946684800  # 2000-01-01


def big(n):
    n = int(n)
    if n == 0:
        return [0]
    s, n = (1, n) if n > 0 else (-1, -n)
    r = [s]
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def unbig(b):
    n = 0
    for l in reversed(b[1:]):
        n = n * 10000 + l
    return b[0] * n


def txt(s):
    if isinstance(s, str):
        s = s.encode("utf8", "surrogateescape")
    return list(s)


def untxt(b):
    return bytes(b).decode("utf8", "replace")


def tm(x):
    """[unix seconds] or [unix seconds, ns] -> [day, second]"""
    if x is None:
        return [0, -1]
    if len(x) > 1:
        return [0, -2]  # a fraction of a second: no time in the specification looks like this
    d, s = divmod(x[0] - EPOCH, 86400)
    return [d, s]


def utm(unix):
    d, s = divmod(unix - EPOCH, 86400)
    return [d, s]


def mark(s):
    if s == "":
        return 0
    return ord(s) if len(s) == 1 and ord(s) < 128 else 999


def val(v):
    return [v[0], big(v[1])]


def bal(b):
    return [val(v) for v in b]


def cur(c):
    return dict(name=txt(c["name"]), before=c["before"], nospace=c["nospace"], thou=mark(c["thou"]), dec=mark(c["dec"]),
                prec=c["prec"], isin=txt(c["isin"]), comments=[txt(x) for x in c["comments"]])


NOCUR = dict(name=[], before=False, nospace=False, thou=0, dec=0, prec=0, isin=[], comments=[])


def src(i, files):
    """'path:line' -> [file, line]"""
    if i == "":
        return [0, 0]
    p, _, n = i.rpartition(":")
    try:
        n = int(n)
    except ValueError:
        return [0, 0]
    return [files.get(p, 0), n]


def ledger(p, files, nosrc=False):
    f = (lambda i: [0, 0]) if nosrc else (lambda i: src(i, files))
    return dict(
        accts=[dict(full=txt(a["full"]), name=txt(a["name"]), parent=a["parent"], kids=a["kids"], level=a["level"],
                    code=txt(a["code"]), comments=[txt(c) for c in a["comments"]], src=f(a["id"]), posts=a["posts"],
                    start=bal(a["start"])) for a in p["accts"]],
        txns=[dict(time=tm(t["time"]), desc=txt(t["desc"]), comments=[txt(c) for c in t["comments"]], src=f(t["id"]),
                   posts=[dict(acct=s["acct"], time=tm(s["time"]), val=val(s["val"]), bal=bal(s["bal"]),
                               price=val(s["price"]) if "price" in s else [], asrt=val(s["asrt"]) if "asrt" in s else [],
                               comments=[txt(c) for c in s["comments"]], src=f(s["id"]), auto=s["auto"], own=s["own"])
                          for s in t["posts"]]) for t in p["txns"]],
        prices=[dict(time=tm(x["time"]), cur=x["cur"], val=val(x["val"]), auto=x["auto"],
                     comments=[txt(c) for c in x["comments"]], src=f(x["id"])) for x in p["prices"]],
        currs=[cur(c) for c in p["currs"]],
        unnamed=cur(p["unnamed"]) if "unnamed" in p else NOCUR,
        dflt=p["dflt"], stray=p["stray"])


EMPTY = dict(accts=[], txns=[], prices=[], currs=[], unnamed=NOCUR, dflt=0, stray=0)
