"""Random histories of expansions in one compiler process (C21): the same programs, of many projects, expanded in different orders and
several times; each program has to come out the same whatever was expanded before it.  No reference expansion is needed."""
import os, random, shutil, subprocess, tempfile, time
import vlib, oracle, toml_engine
from vlib import FS, RS, CheckError

RULE = ("random programs of random projects (hooq.toml files good and bad, or none), expanded by the real macro code in one rustc process per"
        " history, in different orders and repeatedly; every program has to give the same tokens in every history and as in a process of"
        " its own; non-trivial = distinct expansions")


def run_history(so, progs, order, tmp, timeout=100):
    """Expands progs[i] for i in order, in one process; -> [(index, [status, payload..])] in the order in which they were expanded.
    Each program is a file of its own, so that its positions do not depend on the history."""
    name = os.path.basename(so)[3:-3]
    d = tempfile.mkdtemp(prefix="hist.", dir=tmp)
    try:
        for i in sorted(set(order)):
            c = progs[i].case
            open(d + "/p%d.rs" % i, "w", encoding="utf8", newline="").write('%s::probe!{ %d %s "%s" { %s\n} {\n%s\n} }\n' % (name, i, c.kind, c.dir, c.a, c.b))
        with open(d + "/m.rs", "w") as f:
            f.write('#![crate_type="lib"]\n' + "".join('#[path="p%d.rs"] mod h%d;\n' % (i, k) for k, i in enumerate(order)))
        try:
            r = vlib.sh(["rustc", "--edition=2021", "--emit=metadata", "-o", "m.rmeta", "--extern", name + "=" + so, "m.rs"], cwd=d,
                        timeout=timeout, extra=dict(PROBE_OUT=d + "/out"))
        except subprocess.TimeoutExpired:
            raise CheckError("the compiler did not end within %d s" % timeout)
        if not os.path.exists(d + "/out"):
            raise CheckError("probe did not run: " + r.stdout[-2000:])
        out = []
        for rec in open(d + "/out", encoding="utf8", newline="").read().split(RS):
            f = rec.split(FS)
            if len(f) >= 2:
                out.append((int(f[0]), f[1:]))
        if len(out) != len(order):      # the compiler died, in the one that has no answer
            if len(out) > len(order) or any(i != j for (i, _), j in zip(out, order)):
                raise CheckError("probe lost %d of %d expansions: %s" % (len(order) - len(out), len(order), r.stdout[-2000:]))
            out.append((order[len(out)], ["crash", r.stdout[-600:]]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def key(out):
    """What has to agree: the tokens, or that it is refused (which of several errors is named first is left open)."""
    return out if out[0] == "ok" else out[:1]


def same(a, b):
    """The same result; two refusals that begin alike have to say the same, in whatever order."""
    if key(a) != key(b):
        return False
    if a[0] != "err" or len(a) < 2 or len(b) < 2:
        return True
    x, y = a[1].split("\n"), b[1].split("\n")
    return x[0] != y[0] or sorted(x) == sorted(y)


def marked(rng, d, mark):
    """A project whose settings show in every expansion."""
    os.makedirs(d)
    open(os.path.join(d, "hooq.toml"), "w").write('[default]\nmethod = """.%s ( )"""\n[mine]\nmethod = """. mine_%s ( )"""\n' % (mark, mark))
    out = []
    for root in ("", "mine"):
        pr = toml_engine.TProg(oracle.std_item([]), flavor=toml_engine.ALL_DEFAULT, root=root, dir=d, traits=[], root_err=False, rng=rng)
        pr.toml = mark
        out.append(pr)
    return out


class HistFail:
    def __init__(self, before, prog, alone, after):
        self.before, self.prog, self.alone, self.after = before, prog, alone, after

    def size(self):
        return sum(len(p.text) + len(getattr(p, "toml", None) or "") for p in self.before + [self.prog])

    def describe(self):
        return {"kind": "history", "expanded_before_in_the_same_process": [p.describe() for p in self.before], "program": self.prog.describe(),
                "in_a_process_of_its_own": self.alone[:2], "after_those": self.after[:2]}


class HistoryEngine:
    rule = RULE

    def __init__(self, prop):
        self.prop = prop

    def programs(self, rng, dirs):
        ps = []
        for _ in range(50):
            ps += toml_engine.make(rng, dirs, "C13", rng.choice([None, "proj", "proj", "proj/sub", "Proj"]), cargo=.5)
        for _ in range(15):     # projects inside the directories of others, half of them without a hooq.toml of their own
            at = rng.choice([p.dir for p in ps if p.so == "cur" and getattr(p, "toml", None)])
            ps += toml_engine.make(rng, at, "C13", rng.choice([None, None, "member"]), .5)
        for a, b in [("Proj", "proj"), ("p.q", "p_q"), ("p-q", "p_q2"), ("x", "x1"), ("v/w", "v_w"), ("\u00e9", "e")]:    # neighbours with similar names
            d = tempfile.mkdtemp(prefix="n", dir=dirs)
            ps += marked(rng, os.path.join(d, a), "one") + marked(rng, os.path.join(d, b), "two")
        for k in range(4):      # projects of the same name
            ps += marked(rng, os.path.join(tempfile.mkdtemp(prefix="m", dir=dirs), rng.choice(["proj", "proj", "app"])), "m%d" % k)
        ps += [p for n in (64, 129) for p in [oracle.counts_program(rng, n)] if p.so == "cur"]
        for q in ("C07", "C08", "C17", "C03", "C04"):
            ps += oracle.programs(q, rng, 12)[-12:]
        ps = [p for p in ps if p.so == "cur"]
        for p in ps:        # the programs without a project of their own share one directory
            if not os.path.isdir(p.case.dir):
                p.case.dir = p.dir = dirs
        return ps

    def shrink(self, so, ps, before, i, alone, tmp):
        """A short list of predecessors after which program i still comes out otherwise."""
        def differs(b):
            out = run_history(so, ps, b + [i], tmp)[-1]
            return out[1] if out[0] == i and not same(out[1], alone) else None
        got = differs(before)
        if got is None:
            return None
        while len(before) > 1:
            h = len(before) // 2
            for b in (before[:h], before[h:]):
                g = differs(b)
                if g is not None:
                    before, got = b, g
                    break
            else:
                break
        return before, got

    def run(self, seed, effort, deadline):
        so, log = vlib.build_probe()
        if so is None:
            raise CheckError("the probe does not build: " + log[-1500:])
        fails, tot, k = [], dict(run=0, unusable=0, distinct_outputs=0, histories=0), 0
        while k < effort and not fails and (k == 0 or time.time() < deadline):
            tmp = tempfile.mkdtemp(prefix="hooqhist.")
            try:
                rng = random.Random("%s/%s/%s" % (self.prop, seed, k))
                ps = self.programs(rng, tempfile.mkdtemp(prefix="d", dir=tmp))
                n = len(ps)
                h1 = list(range(n))
                h2 = h1[::-1]
                h3 = [rng.randrange(n) for _ in range(n)] + h1
                h4 = [i for i in rng.sample(h1, n // 2) for _ in range(rng.choice([1, 2, 3]))]
                runs = [run_history(so, ps, h, tmp) for h in (h1, h2, h3, h4)]
                named = [i for i in h1 if os.path.exists(os.path.join(ps[i].dir, "Cargo.toml"))]    # projects that may know hooq by another name
                runs += [run_history(so, ps, rng.sample(named, 1) + rng.sample(h1, 16), tmp) for _ in range(8)]
                singles = [run_history(so, ps, [i], tmp) for i in rng.sample(h1, 12) + rng.sample(named, 12)]
                seen, distinct = {}, set()
                for r in singles + runs:
                    for pos, (i, out) in enumerate(r):
                        seen.setdefault(i, []).append((out, r, pos))
                        if out[0] == "ok":
                            distinct.add(out[1])
                for i, l in sorted(seen.items()):
                    if l[0][0][0] == "badcase" or all(same(l[0][0], o) for o, _, _ in l):
                        continue
                    alone = run_history(so, ps, [i], tmp)[0][1]
                    for out, r, pos in sorted((x for x in l if not same(x[0], alone)), key=lambda x: x[2]):
                        s = self.shrink(so, ps, [j for j, _ in r[:pos]], i, alone, tmp)
                        if s:
                            fails.append((HistFail([ps[j] for j in s[0]], ps[i], alone, s[1]), "the expansion depends on what was expanded before"))
                        else:
                            fails.append((HistFail([], ps[i], alone, out), "the expansion is not always the same"))
                        break
                    if len(fails) >= 3:
                        break
                tot["run"] += sum(len(r) for r in runs + singles)
                tot["unusable"] += sum(1 for r in runs + singles for _, o in r if o[0] == "badcase")
                tot["distinct_outputs"] += len(distinct)
                tot["histories"] += len(runs) + len(singles)
                tot["samples"] = [ps[-1].describe(), ps[0].describe()]
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            k += 1
        return fails, tot


if __name__ == "__main__":
    import json, sys
    e = HistoryEngine("C21")
    t = time.time()
    fails, st = e.run(int(sys.argv[1]), int(sys.argv[2]), time.time() + 300)
    st.pop("samples")
    print(st, len(fails), "%.1fs" % (time.time() - t))
    for p, why in sorted(fails, key=lambda f: f[0].size())[:2]:
        print(json.dumps(p.describe(), indent=1).replace("\\n", "\n")[:3500], "\n", why)
