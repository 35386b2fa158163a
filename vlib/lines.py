"""Journals made of lines chosen from a few: explored with spec/MCLines.tla, and read by the code."""
import json, os, random
from . import core, enc, journal
from .check import journals

# one or more of every kind, in all the states that the reader may be in
LINES = [
    "account A:B ; code:7 x",
    "account A",
    "account  C ; n",
    "commodity 1.000,00 \u20ac ; isin:X1",
    "commodity x1.5",
    "commodity ; nothing",
    "D 1,0 \u20ac ; d",
    "P 2020-01-02 $ 2 \u20ac ; p",
    "P 2020-01-01 $ 3",
    "P 2020-01-03 $",
    "2020-01-02 t2 ; d",
    "2020/01/01 t1",
    "2020-13-01 no",
    "  A:B  3 \u20ac ; date:2020-03-01",
    "  A:B  $2 @ 3 \u20ac",
    "\tA",
    " C  -3\u20ac = 0 \u20ac ; v",
    " C  1,5 @",
    " D E  1.000,5",
    "  ; note code:9",
    "\t# date:2021-01-01",
    " * isin:Z",
    "; outside",
    "",
    "junk ; c",
    "include other.journal",
    "include absent.journal",
    "  include other.journal",
    "account E ; code: 7 u",
]
OTHER = [" ; note in the other one", "account D ; there", "  ; more of it"]


def explore(ck, sample, longest, most=None, timeout=700):
    """Explores journals of these lines; returns them, for the code to read them: [{file: lines}]"""
    first = journal.Case(ck.next_id(), {"main.journal": [], "other.journal": OTHER}, [])
    first.write()
    fs = first.spec_files()
    data = dict(main=fs[0]["path"], other=[f for f in fs if f["path"][-1] == enc.txt("other.journal")][0], lines=[list(l.encode()) for l in LINES])
    path = os.path.join(core.scratch(), "lines-%d.json" % random.randrange(10 ** 9))
    with open(path, "w") as f:
        json.dump(data, f)
    found = ck.explored("MCLines", None, timeout, dict(LINES=path, SAMPLE=str(sample), LONGEST=str(longest)), most)
    os.unlink(path)
    first.clean()
    return [{"main.journal": [LINES[n - 1] for n in x], "other.journal": OTHER} for x in found]


def cases(ck, files, groups):
    return [journal.Case(ck.next_id(), f, groups) for f in files]


def both(ck, groups, sample=(60, 1200), longest=(7, 8), every=3, most=9000, **kw):
    """A sample of long ones and, if there is time, all the short ones."""
    js = explore(ck, ck.size(*sample), ck.size(*longest))
    journals(ck, cases(ck, js, groups), "journals of some lines", **kw)
    if every and not ck.quick():
        js = explore(ck, 0, every, most=most)
        for i in range(0, len(js), 3000):
            journals(ck, cases(ck, js[i:i + 3000], groups), "journals of all lines", **kw)
