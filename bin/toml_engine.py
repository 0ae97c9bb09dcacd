"""Random hooq.toml files, root arguments and flavor attributes (C12, C13, C20) against a reference written from the documentation."""
import json, os, random, shutil, tempfile, time
import vlib, oracle
from model import Method, Err, Attr, IBody, toks
from oracle import Fl, Prog, ALL, FEATURES, std_item, a_flavor, a_method, a_targets, lookup, run_programs

RULE = ("random hooq.toml files (nested tables over built-in and new names, every field optional at every level, errors injected), root argument"
        " lists and flavor attributes, expanded by the real macro code and compared token by token with a reference expansion under the"
        " settings computed from the documentation; non-trivial = distinct expansions")
NAMES = ["X_y", "x_Y", "xy", "a_", "a-", "default", "log", "anyhow", "eyre", "tracing", "hook", "mine", "a", "b", "info", "warn", "release", "x_y", "z9", "x-y", "Default", "emptyy"]
TRAITS = ["m :: T", ":: k :: Ext", "m :: sub :: Tr < u8 >", "U", "m :: T", "m :: Zed", "crate :: A", "self :: B"]
METHODS = [". m1 ( )", ". m2 ( $ line )", "wrap ( $ expr )", ". tagged ( $ tag )", ". b ( $ bindings )", ". lv ( $ level , $ n )", ". w ( | e | { e } )"]
EXPRS = ["1", "1 + 2", "foo ( )", "\"s\"", "a . b", "Level :: Info", "[ 1 , 2 ]", "| x | x"]
BADT = ["??", "Return", "tail", "", "tail-expr", "All", "question "]


class Tab:
    def __init__(self):
        self.f, self.subs, self.bad = {}, {}, False


def table(rng, depth, bad):
    t, r = Tab(), rng.random
    p = rng.choice([.15, .4, .8])
    if r() < p:
        t.f["trait_uses"] = [rng.choice(TRAITS) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if r() < p:
        t.f["method"] = rng.choice(METHODS)
    if r() < p:
        ks = [k for k in "qrt" if r() < .5]
        rng.shuffle(ks)
        t.f["hook_targets"] = ["all"] if r() < .1 else [rng.choice(oracle.TARGET_SPELL[k]) for k in ks]
        t.kinds = "qrt" if t.f["hook_targets"] == ["all"] else ks
    ids = lambda: [("!" if r() < .3 else "") + rng.choice(["Err", "Bail", "Ok", "f", "g", "Halt"]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if r() < p:
        t.f["tail_expr_idents"] = ids()
    if r() < p * .8:
        t.f["ignore_tail_expr_idents"] = [i.lstrip("!") for i in ids()]
    if r() < p:
        t.f["result_types"] = [rng.choice(["Result", "MyRes", "Option", "Res"]) for _ in range(rng.choice([0, 1, 2]))]
    if r() < p:
        t.f["hook_in_macros"] = r() < .5
    if r() < p:
        t.f["bindings"] = {rng.choice(["tag", "level", "n", "k"]): rng.choice(EXPRS) for _ in range(rng.choice([0, 1, 2]))}
    if depth > 0:
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            t.subs[rng.choice(NAMES)] = table(rng, depth - 1, bad)
    if bad and r() < .5:
        k = rng.randrange(7)
        t.bad = True
        if k == 0:
            t.f["hook_targets"] = rng.choice([[], ["?"]]) + [rng.choice(BADT)]
        elif k == 1:
            t.f["method"] = rng.choice([". m ( ", "foo ( ] )", "\" "])
        elif k == 2:
            t.f["trait_uses"] = rng.choice([["m :: T", "1"], ["a b"], [""], ["m ::"], ["m :: T", "u8 ( ) )"]])
        elif k == 3:
            t.f["bindings"] = {"k": "1", "n": rng.choice(["", "1 +", "let", "a b"])}
        elif k == 4:
            t.f["hook_in_macros"] = "true"
        elif k == 5:
            t.f["nope"] = 1
        else:
            t.subs[rng.choice(["empty", ""])] = table(rng, 0, False)
    return t


def dump(tabs):
    out = []

    def key(k):
        return k if k.replace("_", "").replace("-", "").isalnum() and k.isascii() else json.dumps(k)

    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, dict):
            return "{ " + ", ".join("%s = %s" % (key(a), val(b)) for a, b in v.items()) + " }"
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        return json.dumps(v)

    def go(path, t):
        if t.f or not t.subs or len(t.subs) % 2 == 0:
            out.append("[" + ".".join(key(k) for k in path) + "]")
            out.extend("%s = %s" % (k, val(v)) for k, v in t.f.items())
        for k, s in t.subs.items():
            go(path + [k], s)
    for k, t in tabs.items():
        go([k], t)
    return "\n".join(out) + "\n"


def words(s):
    return [w for w in s.split(" ") if w]


def apply(fl, tabs, base):
    """The documentation's reading of a level of tables."""
    out = dict(fl)
    for name, t in tabs.items():
        if name in ("", "empty") or t.bad:
            raise Err("toml")
        f = (fl[name] if name in fl else base).copy()
        f.traits = list(t.f.get("trait_uses", []))
        if "method" in t.f:
            f.method = Method(t.f["method"])
        if "hook_targets" in t.f:
            f.targets = set(t.kinds)
        if "tail_expr_idents" in t.f or "ignore_tail_expr_idents" in t.f:
            ids = t.f.get("tail_expr_idents")
            nots = [i[1:] for i in ids or [] if i.startswith("!")]
            if ids is not None:
                f.tei = [i for i in ids if not i.startswith("!")]
            if "ignore_tail_expr_idents" in t.f:
                f.itei = nots + t.f["ignore_tail_expr_idents"]
            elif nots:
                f.itei = nots
        if "result_types" in t.f:
            f.rt = list(t.f["result_types"])
        if "hook_in_macros" in t.f:
            f.him = t.f["hook_in_macros"]
        for k, v in t.f.get("bindings", {}).items():
            f.bind[k] = words(v)
        f.subs = apply(f.subs, t.subs, f)
        out[name] = f
    return out


def all_names(fl, pre=""):
    out = []
    for k, f in fl.items():
        out += [pre + k] + all_names(f.subs, pre + k + "::")
    return out


def paths(fl):
    return [n.split("::") for n in all_names(fl)]


def ident(s):
    return s.replace("_", "").isalnum()


class TProg(Prog):
    missing = None      # the flavors there are, when one that is not there is named

    def check(self):
        why = Prog.check(self)
        if why or self.missing is None:
            return why
        if self.case.out[0] != "err":
            return None if self.case.out[0] == "badcase" else "a missing flavor was accepted"
        got = sorted(l.strip()[2:] for l in self.case.out[1].split("\n") if l.startswith("  - "))
        if got != sorted(self.missing):
            return "the error for a missing flavor lists %s, there are %s" % (got, sorted(self.missing))

    def describe(self):
        d = Prog.describe(self)
        d["hooq.toml"] = self.toml
        return d

    def size(self):
        return len(self.text) + len(self.toml or "") + len(self.root)


def root_args(rng, fl, want_err):
    """-> (text, flavor path or None, trait list, kind of error or None)"""
    args, path, traits, err = [], None, [], None
    ps = paths(fl)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        k = rng.random()
        if k < .5:
            p = rng.choice(ps)
            if rng.random() < .4 and len(ps) > 8:
                p = max(rng.sample(ps, 4), key=len)
            if all(ident(x) for x in p) and rng.random() < .5:
                args.append(" :: ".join(p))
            else:
                args.append("flavor = " + json.dumps("".join(x if i == 0 else rng.choice([".", "::"]) + x for i, x in enumerate(p))))
            path = p
        else:
            ts = [rng.choice(TRAITS) for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 8]))]
            args.append("%s ( %s%s )" % (rng.choice(["trait_use", "trait_uses"]), " , ".join(ts), " ," if ts and rng.random() < .3 else ""))
            traits += ts
    if want_err:
        k = rng.randrange(3)
        if k == 0:
            a = rng.choice(["flavor = log", "flavor = 1", "nope ( m :: T )", "trait_use = \"m :: T\"", "flavor ( \"log\" )", "log :: < u8 >", "log < u8 > :: info",
                            "flavors = \"log\"", "trait_use ( 1 )", "trait_use ( m :: T m :: U )", "flavor = \"\"", "flavor = \"log.\"", "flavor = \".log\"",
                            "flavor = \"log..info\"", "flavor = \"log::::info\"", "a :: trait_use ( m :: T )", "a :: flavor = \"log\"", "1"])
            args.insert(rng.randrange(len(args) + 1), a)
            err = "form"
        else:
            p = list(rng.choice(ps))
            m = rng.randrange(7)
            if m == 0:
                p = p + [rng.choice(["nope", p[-1], "default"])]
            elif m == 1:
                p[rng.randrange(len(p))] += rng.choice(["x", " ", "_"])
            elif m == 2:
                p[0] = p[0].upper()
            elif m >= 5:
                # a near twin of one of the names on the way
                tr = rng.choice([lambda s: s.replace("_", "-"), lambda s: s.replace("-", "_"), lambda s: s.replace("-", "").replace("_", ""), str.swapcase,
                                   str.capitalize, lambda s: s + "s", lambda s: s[:-1], lambda s: " " + s, lambda s: "r#" + s])
                c = [(q, i) for q in ps for i in range(len(q)) if tr(q[i]) != q[i]]
                if c:
                    q, i = rng.choice([x for x in c if x[1]] or c) if rng.random() < .6 else rng.choice(c)
                    p = q[:i] + [tr(q[i])] + q[i + 1:]
            elif m == 3:
                p = p[1:] + p[:1] + [p[0]]
            else:
                p = ["nope"] + p
            if lookup(fl, p) is None:
                args.append("flavor = " + json.dumps("".join(x if i == 0 else rng.choice([".", "::"]) + x for i, x in enumerate(p))))
                path, err = p, "missing"
    return " , ".join(args) + (" ," if args and rng.random() < .2 else ""), path, traits, err


CARGO = ['[dependencies]\nhooq = "0.4"\n', '[dependencies]\nh = { package = "hooq", version = "1" }\n', '[dependencies]\nhooq-macros = "1"\n',
         '[dependencies]\nmy-macros = { package = "hooq-macros", version = "1" }\n', '[dev-dependencies.hk]\npackage = "hooq"\nversion = "1"\n',
         '[dependencies]\n', '[dependencies]\nserde = "1"\n', '[dependencies]\nhooq-macros = "1"\nhooq2 = { package = "hooq", version = "1" }\n']


def make(rng, dirs, prop, leaf=None, has_toml=.9, at=None, cargo=0):
    """A directory with (or without) a hooq.toml, and some programs under it."""
    bad = rng.random() < .12
    if at:
        d = at
        os.makedirs(d)
    else:
        d = tempfile.mkdtemp(prefix="t", dir=dirs)
    if cargo and rng.random() < cargo:
        os.makedirs(os.path.join(d, leaf or ""), exist_ok=True)
        c = rng.choice(CARGO)
        open(os.path.join(d, leaf or "", "Cargo.toml"), "w").write('[package]\nname = "%s"\nversion = "0.1.0"\n%s' % (rng.choice(["p", "p", "p", "hooq", "hooq-macros"]), c))
    if leaf and not at:
        d = os.path.join(d, leaf)
        os.makedirs(d, exist_ok=True)
    tabs, text = {}, None
    if rng.random() < has_toml:
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            tabs[rng.choice(NAMES)] = table(rng, rng.choice([0, 1, 2, 3]), bad)
        if bad and rng.random() < .3:
            tabs[rng.choice(["empty", ""])] = table(rng, 0, False)
        text = dump(tabs)
        open(os.path.join(d, "hooq.toml"), "w").write(text)
    err = None
    try:
        fl = apply(ALL, tabs, ALL_DEFAULT)
    except Err:
        fl, err = ALL, "toml"
    out = []
    for _ in range(3):
        root, path, traits, e = root_args(rng, fl, rng.random() < .15)
        f = lookup(fl, path or ["default"])
        attrs = []
        if rng.random() < .25:
            attrs.append(a_method(". own ( $ bindings )"))
        if rng.random() < .25:
            p = rng.choice(paths(fl))
            attrs.append(a_flavor(rng.choice(["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"]),
                                  p if all(ident(x) for x in p) else ["default"], fl, rng))
        if rng.random() < .15:
            attrs.append(a_targets("qrt", rng))
        item = std_item(attrs)
        if rng.random() < .2:
            item = IBody(toks("mod mm"), [item], [])
        bad_root = bool(err or e)
        pr = TProg(item, flavor=f, root=root, dir=d, traits=[] if bad_root else traits + f.traits, root_err=bad_root, rng=rng)
        pr.toml = text
        if not err and e == "missing":
            pr.missing = all_names(fl)
        out.append(pr)
    return out


ALL_DEFAULT = ALL["default"]


class TomlEngine:
    rule = RULE

    def __init__(self, prop):
        self.prop = prop

    def run(self, seed, effort, deadline):
        so, log = vlib.build_probe()
        if so is None:
            raise vlib.CheckError("the probe does not build: " + log[-1500:])
        fails, tot, k = [], {}, 0
        while k < effort and not fails and (k == 0 or time.time() < deadline):
            dirs = tempfile.mkdtemp(prefix="hooqtoml.")
            try:
                rng = random.Random("%s/%s/%s" % (self.prop, seed, k))
                ps = []
                for _ in range(220):
                    ps += make(rng, dirs, self.prop)
                f, st = run_programs(ps, {"cur": so})
            finally:
                shutil.rmtree(dirs, ignore_errors=True)
            fails += f
            for a, b in st.items():
                tot[a] = tot.get(a, 0) + b
            tot["samples"] = [ps[-1].describe(), ps[-2].describe()]
            k += 1
        return fails, tot


if __name__ == "__main__":
    import sys
    e = TomlEngine(sys.argv[1])
    fails, st = e.run(int(sys.argv[2]), int(sys.argv[3]), time.time() + 300)
    st.pop("samples")
    print(st, len(fails))
    for p, why in sorted(fails, key=lambda f: f[0].size())[:2]:
        print(json.dumps(p.describe(), indent=1).replace("\\n", "\n")[:1500], "\n", why[:2500])
