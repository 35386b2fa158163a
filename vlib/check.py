"""What all the checks have in common: their parameters, what they find and what they report."""
import json, os, random, re, sys, time
from . import commands, core, enc, gen, journal

PRINTED = re.compile(r'<<\s*"@@",\s*("[^\n]*")\s*>>')
EVID = os.path.join(core.VERIF, "evidence")


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []      # (what, details)
        self.notes = {}
        self.models = []
        self._h = {}
        self.rng = random.Random("%s/%s" % (prop, seed))
        self._id = 0

    def quick(self):
        return self.tier == "quick"

    def size(self, quick, thorough):
        return quick if self.quick() else thorough

    def next_id(self):
        self._id += 1
        return self._id

    def harness(self, race=False, name="harness"):
        if (race, name) not in self._h:
            self._h[race, name] = core.build_harness(race, name)
        return self._h[race, name]

    def cli(self, name="ledger", variant=""):
        if name + variant not in self._h:
            self._h[name + variant] = core.build_cli(name, variant)
        return self._h[name + variant]

    def left(self):
        return (780 if not self.quick() else 200) - (time.time() - self.t0)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def add_states(self, st):
        self.transitions += st[0]
        self.states += st[1]

    def violation(self, what, details):
        self.violations.append((what, details))

    # -- models checked by themselves

    def model(self, module, cfg=None, timeout=600, env=None, min_states=2, extra=()):
        """Exhaustive exploration of a bounded model."""
        t = time.time()
        rc, out = core.tlc(module, cfg=cfg, timeout=timeout, env=env, extra=extra)
        st = core.tlc_states(out)
        if rc != 0 or st[1] < min_states:
            raise core.HarnessError("model %s (%s) fails (rc %d):\n%s" % (module, cfg, rc, out[-4000:]))
        self.add_states(st)
        self.models.append(dict(model=module, config=cfg or module + ".cfg", states=st[1], transitions=st[0], seconds=round(time.time() - t, 1)))
        return out

    def explored(self, module, cfg=None, timeout=600, env=None, most=None):
        """What an exploration prints, each thing once (and at most so many of them)."""
        out = self.model(module, cfg, timeout, env, extra=("-seed", str(self.rng.randrange(1 << 30))))
        seen = sorted({json.loads(x) for x in PRINTED.findall(out)})
        if most and len(seen) > most:
            seen = self.rng.sample(seen, most)
        return [json.loads(x) for x in seen]

    # -- the end

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        shown = []
        if self.violations:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, det) in enumerate(self.violations[:3]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, i + 1))
                with open(p, "w") as f:
                    json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, what=what, details=det), f, indent=1, ensure_ascii=False, default=repr)
                shown.append((what, p))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples[:3], models=self.models, counts=self.notes,
                                violations=len(self.violations)),
                  wall_s=round(time.time() - self.t0, 2))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=repr)
        for what, p in shown:
            print("# " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s: %d traces validated, %d states, %d violations, %.1f s" % (self.prop, self.traces, self.states, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def open_ops(case):
    return [dict(op="open", slot="L", src=case.path(case.main)), dict(op="proj", slot="L")]


def run_journals(ck, cases, ops=open_ops, timeout=30.0):
    """Opens the journals of all the cases with the real code; returns {id: outputs}."""
    for c in cases:
        c.write()
    return core.run_cases(ck.harness(), [dict(id=c.id, ops=ops(c)) for c in cases], timeout=timeout)


def outcome(out):
    """res, projection, log of the first two outputs (open, proj)"""
    o = out[0]
    res = o["res"]
    proj = None
    if res == "ok":
        if len(out) > 1 and out[1].get("res") == "ok":
            proj = out[1]
        else:
            res = out[1]["res"] if len(out) > 1 else "crash"
    return res, proj, o.get("log")


def files_text(case):
    t = {}
    if getattr(case, "built", None):
        t["(supplied)"] = case.built
    for k in case.files:
        try:
            with open(case.path(k), "rb") as f:
                t[k] = f.read().decode("utf8", "replace")[:20000]
        except OSError as e:
            t[k] = repr(e)
    return t


def bare(x):
    """A projection without what says where it comes from."""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items() if k != "id"}
    if isinstance(x, list):
        return [bare(v) for v in x]
    return x


class Tokens:
    """Numbers for things: the same number for equal things."""

    def __init__(self):
        self.n = {}

    def __call__(self, x):
        k = json.dumps(x, sort_keys=True)
        return self.n.setdefault(k, len(self.n) + 1)


def journals(ck, cases, what="journal", ops=open_ops, observe=None, timeout=30.0, jobs=None):
    """Opens journals, and judges what comes out with spec/ConfJournal.tla."""
    res = run_journals(ck, cases, ops, timeout)
    recs, done = [], commands.run(ck, cases, jobs, {c.id: outcome(res[c.id])[2] for c in cases}) if jobs else {}
    for c in cases:
        r, proj, log = outcome(res[c.id])
        rec = journal.encode(c, r, proj, log)
        rec.update(c.extra)
        if jobs:
            rec.update(commands.fields(done[c.id]))
        if observe:
            rec.update(observe(c, res[c.id], r, proj))
        recs.append(rec)
    v, st = journal.judge("ConfJournal", recs)
    ck.add_states(st)
    ck.traces += len(cases)
    for c in cases:
        verdict, groups, why, nbad = v[c.id]
        ck.note("%s: %s" % (what, why))
        if nbad:
            ck.note(what + ": with rejected lines")
        if verdict == "accepted":
            if len(ck.samples) < 3 and why == "ok" and c.files:
                ck.samples.append(dict(files=files_text(c), outcome=why, compared=c.groups))
        else:
            ck.violation("%s %s: the code and the specification disagree in: %s" % (what, c.id, ", ".join(groups)),
                         dict(files=files_text(c), failing=groups, specification=why, injected=c.note, code=res[c.id], **(dict(commands=commands.details(done[c.id])) if jobs else {})))
    for c in cases:
        c.clean()
    return v
