"""Bounded search for a failing input of one property: generated programs through the real macro, against model.py."""
import os, random, re, sys, tempfile, shutil, json
from model import *
from gen import *
import vlib
from vlib import Case, run_probe

# ---------------------------------------------------------------- comparing
WORD = re.compile(r"[A-Za-z_0-9]")


def canon(t):
    """The probe's dump of one token text."""
    if not t:
        return []
    if t[0] in "\"'" and len(t) > 1 and t[-1] == t[0] or WORD.match(t[0]) or ord(t[0]) > 127:
        return [t]
    if t[0] == "'":
        return ["'", t[1:]]
    return list(t)


def unlit(s):
    return re.sub(r"[\s\\]", "", re.sub(r"\\[ntr]", "", s))


def matches(exp, act):
    """exp: list of canonical tokens; act: the probe's dump.  Returns None or the index of the first difference."""
    pos = 0
    for n, t in enumerate(exp):
        if t.startswith('"' + DERIVED):
            if not act.startswith('"', pos):
                return n
            k = pos + 1
            while k < len(act) and act[k] != '"':
                k += 2 if act[k] == "\\" else 1
            if unlit(act[pos + 1:k]) != unlit(t[2:-1]):
                return n
            pos = k + 2
        elif act.startswith(t, pos) and act[pos + len(t):pos + len(t) + 1] == " ":
            pos += len(t) + 1
        else:
            return n
    return None if pos >= len(act) else len(exp)


def expect_tokens(ts, pos, line0):
    out = []
    for t, i in ts:
        if isinstance(t, tuple):
            what, qid = t
            l, c = pos[qid]
            t = "%dusize" % (line0 + l if what == "line" else c)
        out += canon(t)
    return out


# ---------------------------------------------------------------- settings as attributes
def strs(xs):
    return " , ".join(q(x) for x in xs)


def a_skip(g=None):
    def eff(r):
        r.skip = True
    return Attr("hooq :: skip", eff)


def a_skip_all(g=None):
    def eff(r):
        r.skip_all = True
    return Attr("hooq :: skip_all", eff)


def a_method(text, consume=False, kind=None, last=None):
    m = Method(text, consume, kind, last)

    def eff(r):
        r.method = m
    a = Attr("hooq :: method ( X )", eff)
    a.toks = toks("# [ hooq :: method (") + [(w, next_id()) for w in m.text] + toks(") ]")
    a.text = "hooq :: method ( %s )" % text
    return a


def next_id():
    return toks("x")[0][1]


TARGET_SPELL = {"q": ["?", "question"], "r": ["return"], "t": ["tail_expr", "tail expr", "tailexpr", "tailExpr"]}


def lit_attr(head, vals, eff, close=")"):
    """An attribute with a list of string literals (which may contain blanks)."""
    a = Attr("x", eff)
    ts = toks("# [ hooq ::", head, "(")
    for i, v in enumerate(vals):
        ts += [(q(v), next_id())] + (toks(",") if i < len(vals) - 1 else [])
    a.toks = ts + toks(") ]")
    a.text = "hooq::%s(%s)" % (head, ", ".join(q(v) for v in vals))
    return a


def a_targets(kinds, rng, spell=None):
    def eff(r):
        r.targets = set(kinds)
    if spell is None:
        spell = ["all"] if len(kinds) == 3 and rng.random() < .5 else [rng.choice(TARGET_SPELL[k]) for k in kinds]
    return lit_attr("hook_targets", spell, eff)


def a_tei(idents):
    def eff(r):
        r.tei = [i for i in idents if not i.startswith("!")]
        nots = [i[1:] for i in idents if i.startswith("!")]
        if r.itei is not None:
            r.itei = r.itei + nots
        elif nots:
            r.itei = nots
    return lit_attr("tail_expr_idents", idents, eff)


def a_itei(idents):
    def eff(r):
        r.itei = (r.itei or []) + list(idents)
    return lit_attr("ignore_tail_expr_idents", idents, eff)


def a_rt(types):
    def eff(r):
        r.rt = list(types)
    return lit_attr("result_types", types, eff)


def a_him(b):
    def eff(r):
        r.him = b
    return Attr("hooq :: hook_in_macros ( %s )" % ("true" if b else "false"), eff)


def a_bind(name, val, rng):
    form = rng.randrange(3)
    vs = [w for w in val.split(" ") if w]

    def eff(r):
        r.bind[name] = vs
    return Attr(["hooq :: %s = %s", "hooq :: binding ( %s = %s )", "hooq :: var ( %s = %s )"][form] % (name, val), eff)


class Fl:
    """A flavor: all settings, plus sub-flavors."""

    def __init__(self, method, targets=("q", "r", "t"), tei=("Err",), itei=("Ok",), rt=("Result",), him=True, bind=None,
                 traits=(), subs=None):
        self.method, self.targets, self.tei, self.itei = method, set(targets), list(tei), list(itei)
        self.rt, self.him, self.bind, self.traits, self.subs = list(rt), him, dict(bind or {}), list(traits), dict(subs or {})

    def copy(self):
        return Fl(self.method, self.targets, self.tei, self.itei, self.rt, self.him, self.bind, self.traits,
                  {k: v.copy() for k, v in self.subs.items()})

    def ctx(self):
        return Ctx(self.method, self.targets, self.tei, self.itei, self.rt, self.him, self.bind)


HELP = ":: hooq :: source_excerpt_helpers ::"
HEAD = "let path = $ path ; let line = $ line ; let col = $ col ; let expr = " + HELP + " %s ! ( $ source ) ; "


def lm(parts):
    """A method from text with string literals given apart (they may contain blanks)."""
    m = Method("")
    ws = []
    for p in parts:
        ws += [p] if p.startswith('"') else [w for w in p.split(" ") if w]
    m.text, m.insert = ws, ws[0] == "."
    m.body = ws[1:] if m.insert else ws
    return m


def presets(features):
    d = lm([". inspect_err ( | e | { " + HEAD % "excerpted_pretty_stringify" + ":: std :: eprintln ! (",
            '"[{path}:{line}:{col}] {e:?}\\n{expr}"', ") ; } )"])
    ex = Method("$ expr")
    out = {"default": Fl(d), "empty": Fl(ex, (), (), (), (), False), "hook": Fl(lm([". hook ( | | { $ hooq_meta } )"]))}
    if "log" in features:
        m = lm([". inspect_err ( | e | { " + HEAD % "excerpted_pretty_stringify" + "let level = $ level ; :: log :: log ! ( level ,",
                '"({path}:{line}:{col}) {e}\\n{expr}"', ") ; } )"])
        sub = {n: Fl(m, bind={"level": (":: log :: Level :: " + n.capitalize()).split()}) for n in "error warn info debug trace".split()}
        out["log"] = Fl(m, bind={"level": ":: log :: Level :: Error".split()}, subs=sub)
    if "anyhow" in features:
        m = lm([". with_context ( | | { " + HEAD % "excerpted_pretty_stringify" + "format ! (", '"[{path}:{line}:{col}]\\n{expr}"', ") } )"])
        out["anyhow"] = Fl(m, traits=[":: anyhow :: Context"])
    if "eyre" in features:
        m = lm([". wrap_err_with ( | | { " + HEAD % "excerpted_pretty_stringify" + "format ! (", '"[{path}:{line}:{col}]\\n{expr}"', ") } )"])
        out["eyre"] = Fl(m, traits=[":: eyre :: ContextCompat", ":: eyre :: WrapErr"])
        out["color_eyre"] = Fl(m, traits=[":: color_eyre :: eyre :: ContextCompat", ":: color_eyre :: eyre :: WrapErr"])
    if "tracing" in features:
        m = lm([". inspect_err ( | e | { " + HEAD % "one_line_stringify"
                + ":: tracing :: event ! ( $ level , path , line , col , error = % e , expr , ) ; } )"])
        sub = {n: Fl(m, bind={"level": (":: tracing :: Level :: " + n.upper()).split()}) for n in "error warn info debug trace".split()}
        out["tracing"] = Fl(m, bind={"level": ":: tracing :: Level :: ERROR".split()}, subs=sub)
    return out


FEATURES = ("anyhow", "log", "tracing", "eyre")
ALL = presets(FEATURES)


def lookup(flavors, path):
    cur = flavors.get(path[0]) if path else None
    for p in path[1:]:
        cur = cur.subs.get(p) if cur else None
    return cur


def name_flavor(path, rng):
    """A flavor name as it may be written after `=`: a path or a string with mixed separators."""
    if rng.random() < .4:
        return " :: ".join(path)
    return q("".join(p if i == 0 else rng.choice([".", "::"]) + p for i, p in enumerate(path)))


def a_flavor(field, path, flavors, rng):
    f = lookup(flavors, path)
    if f is None:
        def eff(r):
            raise Err("no flavor")
    else:
        def eff(r):
            if field in ("flavor", "method"):
                r.method = f.method
            if field in ("flavor", "hook_targets"):
                r.targets = set(f.targets)
            if field in ("flavor", "tail_expr_idents"):
                r.tei, r.itei = list(f.tei), list(f.itei)
            if field in ("flavor", "result_types"):
                r.rt = list(f.rt)
            if field in ("flavor", "hook_in_macros"):
                r.him = f.him
            if field in ("flavor", "bindings"):
                r.bind.update(f.bind)
    return Attr("hooq :: %s = %s" % (field, name_flavor(path, rng)), eff)


def a_err(text):
    def eff(r):
        raise Err(text)
    a = Attr("x", eff)
    a.toks = [("# [ " + text + " ]", next_id())]     # verbatim text, never part of an expected output
    a.text = text
    return a


# ---------------------------------------------------------------- one program as a case
class Prog:
    """A root argument text, a context or a documented error, a program."""

    def __init__(self, item, flavor=None, root="", wild=0.0, dir="/nonexistent", traits=(), root_err=False, rng=None, so="cur"):
        self.item, self.flavor, self.root, self.dir, self.traits, self.root_err = item, flavor or ALL["default"], root, dir, list(traits), root_err
        self.text, self.pos = layout(item.src(), rng or random.Random(0), wild)
        self.so = so
        self.case = Case("hooq", self.text, a=root, dir=dir)

    def check(self):
        """None if the real macro did what is documented, else a description."""
        st = self.case.out[0]
        if st == "badcase":
            return None if not self.root_err else None
        if st == "crash":
            return "the compiler process died in the macro: %s" % self.case.out[1]
        if st == "panic":
            return "the macro panicked: %s" % self.case.out[1:]
        try:
            if self.root_err:
                raise Err("root")
            ts = self.item.walk(self.flavor.ctx())
        except Err as e:
            if st == "err":
                return None
            return "expected a compile error (%s), got tokens: %s" % (e, self.case.out[1][:600])
        pre = []
        for t in self.traits:
            pre += toks("# [ allow ( unused ) ] use", t, "as _ ;")
        exp = expect_tokens(pre + ts, self.pos, self.case.line)
        if st == "err":
            return "unexpected compile error: %s" % self.case.out[1][:400]
        n = matches(exp, self.case.out[1])
        if n is None:
            return None
        return "expansion differs at token %d\n  expected: ... %s\n  whole expected: %s\n  actual: %s" % (
            n, " ".join(exp[max(0, n - 8):n + 12]), " ".join(exp), self.case.out[1])

    def size(self):
        return len(self.text)

    def describe(self):
        return {"kind": "hooq", "root_attr": self.root, "item": self.text, "manifest_dir": self.dir,
                "first_line": self.case.line}


# ---------------------------------------------------------------- profiles
def g_bind(g):
    n = g.pick(["alpha", "beta", "k", "line2", "source_", "fn_name2", "B", "K", "a", "ab", "Ab", "_x", "z2", "z10", "Alpha", "a_b", "été"])
    return a_bind(n, g.pick(["1", '"v"', "a :: B", "f ( x , 2 )", "x ?", "- 3", "a + b", "[ 1 , 2 ]"]), g.r)


LISTS = [["Err"], ["Ok"], [], ["Err", "Ok"], ["f"], ["Err", "Bail"], ["h", "g"], ["new"], ["Result"], ["Errr"]]
NLISTS = [["Err"], ["!Ok"], ["Err", "!Ok"], ["!f", "Bail"], [], ["!Err", "!Ok"], ["Ok", "!Err", "f"]]
RLISTS = [["Result"], ["MyRes"], ["Option"], [], ["Result", "MyRes"], ["u8"], ["Assoc"], ["Result2"]]


def eff_from(names):
    table = {
        "skip": lambda g: a_skip(), "skip_all": lambda g: a_skip_all(),
        "targets": lambda g: a_targets([k for k in "qrt" if g.r.random() < .5], g.r),
        "tei": lambda g: a_tei(g.pick(NLISTS)), "itei": lambda g: a_itei(g.pick(LISTS)), "rt": lambda g: a_rt(g.pick(RLISTS)),
        "him": lambda g: a_him(g.r.random() < .5), "bind": g_bind,
        "method": lambda g: a_method(". %s ( %d , $ count )" % (g.name("h"), g.r.randrange(9))),
        "mbind": lambda g: a_method(". %s ( $ %s )" % (g.name("h"), g.pick(["bindings", "alpha", "beta", "k", "vars"]))),
        "sofar": lambda g: a_method(g.pick([". %s ( ) . $ so_far", ". $ sofar . %s ( $ line )", ". w ( %s ( | x | x . $ so_far ) )",
                                            "w ( $ expr ) . $ so_far . %s ( )", ". %s ( mm ! [ $ so_far ] )", ". %s ( )",
                                            ". $ so_far", ". %s ( | e | { let f = { $ so_far } ; e } )",
                                            ". %s ( [ { ( $ sofar ) } , $ line ] )", "w ( $ expr ) . %s ( { $ so_far } )"]).replace("%s", g.name("h"))),
        "flavor": lambda g: a_flavor(g.pick(["flavor", "method", "hook_targets", "tail_expr_idents", "result_types",
                                             "hook_in_macros", "bindings"]),
                                     g.pick([["default"], ["empty"], ["log"], ["log", "info"], ["hook"], ["anyhow"], ["tracing", "warn"],
                                             ["eyre"]]), ALL, g.r),
    }

    def eff(g):
        return table[g.pick(names)](g)
    return eff


RAND_TOKS = ["a", "::", "B", "(", ")", "1", '"s"', "'c'", ",", "=>", "+", "&&", "<", "'a", "#", "let", "fn", "!", "?", ";", "->", ":", "=", "2.5"]


def rand_method(g, depth=0, names=None, insert=None):
    """A random token tree for a method, sprinkled with meta variables."""
    out = []
    names = names or ["line", "column", "col", "path", "file", "expr", "source", "nth", "count", "fnname", "fn_name", "fnsig",
                      "fn_sig", "sofar", "so_far", "bindings", "vars", "hooqmeta", "hooq_meta", "alpha", "beta", "k"]
    for _ in range(g.r.choice([1, 2, 3, 4, 5])):
        j = g.r.random()
        if j < .45:
            out += ["$", g.pick(names)]
        elif j < .65 and depth < 4:
            o, c = g.pick([("(", ")"), ("[", "]"), ("{", "}")])
            out += [o] + rand_method(g, depth + 1, names) + [c]
        else:
            t = g.pick(RAND_TOKS)
            if t in "()":
                continue
            out.append(t)
    return out


def profile(prop, rng, wildlay=True):
    """One random program for a property -> Prog"""
    P = dict
    wild = 0.0
    root, flavor = "", None
    if prop == "C01":
        g = Gen(rng, q=.3, ret=.03, attrs=.04, effects=eff_from(["targets", "skip", "him"]))
        head = [a_method(g.pick([". hk ( )", ". hk ( )", "wrap ( $ expr )"])), a_targets(["q"], rng)]
    elif prop == "C02":
        g = Gen(rng, q=.08, ret=.15, attrs=.10, foreign=.02, ret_tails=.25, closures=.12, effects=eff_from(["tei", "itei", "rt", "targets", "skip"]))
        head = [a_method(". hk ( )"), a_targets(rng.choice([["r"], ["t"], ["r", "t"], ["q", "r", "t"]]), rng)]
        if rng.random() < .5:
            head += [eff_from(["tei", "itei", "rt"])(g) for _ in range(rng.choice([1, 2]))]
    elif prop == "C03":
        g = Gen(rng, q=.2, attrs=.15, foreign=.2, effects=eff_from(["skip", "skip_all", "tei", "itei", "rt", "bind", "him", "method"]))
        head = [a_method(". hk ( )")]
        if rng.random() < .6:
            head.append(a_targets([], rng, []))
            g.p["effects"] = eff_from(["skip", "skip_all", "tei", "itei", "rt", "bind", "method"])
    elif prop == "C04":
        g = Gen(rng, q=.25, ret=.08, attrs=.22, size=50, effects=eff_from(["skip", "skip", "skip_all", "skip_all", "bind", "him", "targets"]), blocks=.35)
        head = [a_method(". hk ( $ count )")]
        if rng.random() < .25:
            head.append(g.pick([a_skip, a_skip_all])())
    elif prop == "C05":
        g = Gen(rng, q=.25, ret=.06, attrs=.2, size=50, blocks=.3, effects=eff_from(["method", "mbind", "targets", "tei", "itei", "rt", "him", "bind", "bind", "flavor"]))
        head = [a_method(". hk ( $ bindings )"), a_bind("alpha", "0", rng), a_bind("beta", "0", rng), a_bind("k", "0", rng)]
    elif prop == "C07":
        g = Gen(rng, q=.3, ret=.12, attrs=.08, size=60, ret_tails=.15, effects=eff_from(["targets", "skip", "skip_all", "him", "rt"]))
        head = [a_method(g.pick([". hk ( $ count )", ". hk ( $ nth )", "w ( $ nth , $ expr )"])), a_targets([k for k in "qrt" if rng.random() < .7], rng)]
    elif prop == "C08":
        g = Gen(rng, q=.15, ret=.05, attrs=.06, size=25, effects=eff_from(["bind", "bind", "skip"]))
        names = None
        j = rng.random()
        if j < .1:
            names = ["line", "nope", "expr", "alpha", "Line", "source_"]
        m = ". hk ( mm ! ( %s ) )" % " ".join(rand_method(g, names=names))
        if j > .9:
            m = g.pick([". hk ( %s $ )", ". hk ( $ %s ( ) )", ". hk ( [ $ ] %s )", ". hk ( $ 1 %s )", ". hk ( $ $ line %s )", ". hk ( ) $ %s",
                        ". hk ( $ + %s )", ". hk ( $ { x } %s )", ". hk ( %s ) . x ( $ \"s\" )"]) % "a"
        head = [a_method(". root ( $ count )"), a_method(m), a_bind("alpha", "1", rng), a_bind("beta", "a + b", rng)]
        if rng.random() < .7:
            head.append(a_bind("k", '"v"', rng))
        # the method overridden comes from the enclosing construct
        if rng.random() < .5:
            head = head[1:]
        if rng.random() < .15:
            n = rng.choice(["line", "count", "expr", "source", "sofar", "fn_name", "vars"])
            head.append(a_bind(n, "77", rng))
        wild = .15 if wildlay else 0
    elif prop == "C09":
        g = Gen(rng, q=.22, ret=.05, attrs=.16, size=28, blocks=.4, items=.1, effects=eff_from(["sofar", "sofar", "sofar", "bind", "him"]))
        head = [a_method(rng.choice([". r0 ( $ line , $ count , $ fn_name )", ". r0 ( ) . $ so_far", "w ( $ expr ) . $ so_far"]))] if rng.random() < .8 else []
        if rng.random() < .2:
            root, flavor = "empty", ALL["empty"]
            head = [a_method(rng.choice([". r0 ( mm ! ( $ so_far ) )", "w ( $ sofar )"])), a_targets(["q", "r", "t"], rng)]
    elif prop == "C10":
        g = Gen(rng, q=.25, ret=.1, attrs=.05, size=30, weak=.35, effects=eff_from(["targets"]), closures=.1, nightly=True)
        head = [a_method(rng.choice([". hk ( )", ". hk ( $ expr )", ". a ( ) . b ( ) . c", "w ( $ expr )", "w ( )", "a :: w ! ( $ source )", "$ expr", ". await",
                                     "( $ expr )", "w ! ( ! , $ expr )", ". hk ( w ! ( ! ) )"]))]
        if rng.random() < .5:
            head.append(a_rt(["Result", "u8", "Option", "Vec", "MyRes", "Assoc"]))
    elif prop == "C11":
        g = Gen(rng, q=.3, ret=.05, attrs=.1, macros=.45, size=40, unhook=.25, effects=eff_from(["him", "him", "skip", "method", "skip_all"]))
        head = [a_method(". hk ( $ count )")]
        if rng.random() < .2:
            head.append(a_him(rng.random() < .5))
    elif prop == "C17":
        g = Gen(rng, q=.3, ret=.08, attrs=.03, size=50, closures=.3, items=.3, blocks=.3, effects=eff_from(["skip", "bind"]))
        head = [a_method(". hk ( $ fn_name , $ fn_sig )")]
        wild = .05 if wildlay else 0
    else:
        raise KeyError(prop)
    item = g.program(head)
    if root == "empty":
        item.attrs = [a for a in item.attrs if a in head or "method" not in a.text]
    return Prog(item, flavor, root, wild, rng=rng)


def sofar_program(rng, depth):
    """Methods one inside another, each with the chain so far somewhere in it."""
    e = E("Call", [E("Path", [toks("f")]), toks("( 1 )")], call="f")
    for k in range(depth):
        e = E("Try", [e, toks("?")])
        c = rng.choice([". h%d ( ) . $ so_far", ". $ sofar . h%d ( )", "w%d ( $ expr ) . $ so_far", ". h%d ( { $ so_far } )", ". h%d ( [ $ sofar ] , ( { $ nth } ) )",
                        "$ so_far . h%d ( $ line )", ". h%d ( )", "w%d ( { let x = { $ expr . $ so_far } ; x } )", ". h%d ( m ! { ( $ so_far ) } )"])
        l = SLet(toks("r"), e, attrs=[a_method(c.replace("%d", str(k)))] if rng.random() < .85 else [])
        e = E("Block", [Block([l] + ([SExpr(E("Try", [E("Path", [toks("z")]), toks("?")]), True)] if rng.random() < .3 else [])
                              + [SExpr(E("Path", [toks("r")]), False)])])
    return Prog(IFn([], toks("fn f ( ) -> u8"), "f", "u8", Block([SExpr(e, False)]), [a_method(rng.choice([". r0 ( )", "w ( { $ expr } ) . r0 ( { $ so_far } )", ". $ so_far"]))]), rng=rng)


def counts_program(rng, n):
    """Straight-line program with n targets of one kind, to reach every ordinal suffix."""
    j = rng.randrange(2)
    stmts = []
    for _ in range(n):
        e = E("Try", [E("Path", [toks("x")]), toks("?")]) if j == 0 else E("Return", [toks("return"), E("Call", [E("Path", [toks("Err")]), toks("( 1 )")], call="Err")])
        stmts.append(SExpr(e, True))
    return Prog(IFn([], toks("fn f ( ) -> u8"), "f", "u8", Block(stmts), [a_method(". hk ( $ count )")]), rng=rng)


# --- C06: attributes on one construct
STD_BODY = """{ let a = x ? ; m ! ( y ? ) ; fn inner ( ) -> MyRes < u8 > { if c { return f ( 1 ) ; } if c { return Ok ( 1 ) ; } if c { Err ( 2 ) } else { Bail ( 3 ) } }
 match z { _ => { return Ok ( 4 ) ; } _ => Bail ( 5 ) , _ => Err ( 6 ) , _ => f ( 7 ) } fn inner2 ( ) -> Option < u8 > { if c { return h ( ) ; } f ( 1 ) } g ( 8 ) }"""


def std_item(attrs, ret="Result < u8 , E >", last="Result"):
    """A fixed function whose expansion shows every setting."""
    def call(c, n):
        return E("Call", [E("Path", [toks(c)]), toks("(", str(n), ")")], call=c)

    def ret_(e):
        return SExpr(E("Return", [toks("return"), e]), True)

    def iff(b, els=None):
        return E("If", [toks("if c"), b] + ([toks("else"), E("Block", [els])] if els else []))
    inner = IFn([], toks("fn inner ( ) -> MyRes < u8 >"), "inner", "MyRes", Block([
        SExpr(iff(Block([ret_(call("f", 1))])), False), SExpr(iff(Block([ret_(call("Ok", 1))])), False),
        SExpr(iff(Block([SExpr(call("Err", 2), False)]), Block([SExpr(call("Bail", 3), False)])), False)]))
    inner2 = IFn([], toks("fn inner2 ( ) -> Option < u8 >"), "inner2", "Option", Block([
        SExpr(iff(Block([ret_(call("h", 9))])), False), SExpr(call("f", 1), False)]))
    m = E("Match", [toks("match z"), Arms([Arm(toks("_"), None, E("Block", [Block([ret_(call("Ok", 4))])])),
                                           Arm(toks("_"), None, call("Bail", 5)), Arm(toks("_"), None, call("Err", 6)),
                                           Arm(toks("_"), None, call("f", 7))])])
    body = Block([SLet(toks("a"), E("Try", [E("Path", [toks("x")]), toks("?")])),
                  SMac(Mac(toks("m !"), "(", [(E("Try", [E("Path", [toks("y")]), toks("?")]), [])]), True),
                  SItem(inner), SItem(inner2), SExpr(m, False), SExpr(call("g", 8), False)])
    return IFn([], toks("fn std_item ( ) ->", ret), "std_item", last, body, attrs)


BAD_ATTRS = ["hooq::skip()", "hooq::skip(x)", "hooq::skip_all(1)", "hooq::nope", "hooq::method", "hooq::hook_targets", "hooq::bindings",
             "hooq::flavor", "hooq::binding", "hooq::var", "hooq::tail_expr_idents", "hooq::result_types", "hooq::hook_in_macros",
             "hooq::nope(1)", "hooq::x(y = 1)", "hooq::skipp", "hooq::a::b", "hooq::a::b = 1", "hooq::a::b(1)", "hooq::skip::x",
             "hooq::hook_targets(\"foo\")", "hooq::hook_targets(\"Return\")", "hooq::hook_targets(\"?\", \"tail-expr\")",
             "hooq::hook_targets(\"\")", "hooq::hook_targets(\"??\")", "hooq::hook_targets(\"All\")", "hooq::hook_targets(\"tail_exprs\")",
             "hooq::hook_targets(question)", "hooq::hook_targets(1)", "hooq::tail_expr_idents(Err)", "hooq::tail_expr_idents(1)",
             "hooq::tail_expr_idents(\"a\" \"b\")", "hooq::ignore_tail_expr_idents(Ok)", "hooq::ignore_tail_expr_idents = default",
             "hooq::ignore_tail_expr_idents = \"default\"", "hooq::result_types(Result)", "hooq::result_types(\"a\", 1)",
             "hooq::hook_in_macros()", "hooq::hook_in_macros(1)", "hooq::hook_in_macros(\"true\")", "hooq::hook_in_macros(true, false)",
             "hooq::binding()", "hooq::binding(x)", "hooq::binding(a::b = 1)", "hooq::var(x = )", "hooq::var(\"x\" = 1)",
             "hooq::var(x = 1, y = 2)", "hooq::flavor = nope", "hooq::flavor = \"log::nope\"", "hooq::flavor = log::info::x",
             "hooq::flavor = 1", "hooq::flavor = f()", "hooq::method = nope", "hooq::method = 1", "hooq::hook_targets = nope",
             "hooq::hook_targets = \"?\"", "hooq::tail_expr_idents = nope", "hooq::result_types = nope", "hooq::hook_in_macros = true",
             "hooq::hook_in_macros = nope", "hooq::bindings = nope", "hooq::bindings(x = 1)", "hooq::flavor = \"\"",
             "hooq::flavor = \"a..b\"", "hooq::flavor = log::<u8>", "hooq::flavor(default)", "hooq::source", "hooq::Skip"]


def c06_prog(rng):
    g = Gen(rng, foreign=.15, attrs=.0)
    names = ["method", "targets", "tei", "tei", "itei", "itei", "rt", "him", "bind", "flavor", "flavor", "skip", "skip_all"]
    eff = eff_from(names)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    attrs = [eff(g) for _ in range(n)]
    if rng.random() < .5:
        attrs = [a for a in attrs if a.text not in ("hooq :: skip", "hooq :: skip_all")]
    if rng.random() < .35:
        attrs.insert(rng.randrange(len(attrs) + 1), a_method(". hk ( $ bindings )"))
    for _ in range(rng.choice([0, 0, 1, 2])):
        attrs.insert(rng.randrange(len(attrs) + 1), Attr(g.pick(FOREIGN), foreign=True))
    if rng.random() < .12:
        attrs.insert(rng.randrange(len(attrs) + 1), a_err(rng.choice(BAD_ATTRS)))
    item = std_item(attrs)
    if rng.random() < .3:
        item = IBody(toks("mod mm"), [item], [eff(g)] if rng.random() < .6 else [])
    return Prog(item, rng=rng)


def c06_fixed(rng):
    for b in BAD_ATTRS:
        yield Prog(std_item([a_err(b)]), rng=rng)
    for k, sp in TARGET_SPELL.items():
        for s in sp:
            yield Prog(std_item([a_method(". hk ( )"), a_targets([k], rng, [s])]), rng=rng)
    yield Prog(std_item([a_method(". hk ( )"), a_targets("qrt", rng, ["all"])]), rng=rng)
    yield Prog(std_item([a_method(". hk ( )"), a_targets("", rng, [])]), rng=rng)


def c10_fixed(rng, consume):
    """Every expression kind as a return value and as a tail, inserted and replaced."""
    ops = ["x", "1", "f ( 1 )", "a . b", "a . m ( )", "a [ 0 ]", "( a )", "[ 1 , 2 ]", "( 1 , 2 )", "[ 0 ; 3 ]", "S { a : 1 }", "m ! ( a )",
           "a . await", "x ?"]
    weak = [("- a", "Unary"), ("! a", "Unary"), ("* a", "Unary"), ("& a", "Reference"), ("& mut a", "Reference"), ("& raw const a", "RawAddr"),
            ("a + b", "Binary"), ("a && b", "Binary"), ("a == b", "Binary"), ("a += b", "Binary"), ("a = b", "Assign"), ("a as u8", "Cast"), ("a .. b", "Range"),
            ("..", "Range"), ("a ..", "Range"), ("| x | x", "Closure"), ("| | { 1 }", "Closure"), ("break", "Break"), ("return", "Return"),
            ("yield a", "Yield"), ("move | x | x", "Closure"), ("async | x | x", "Closure"), ("| x | -> u8 { x }", "Closure"), ("async move | x | x", "Closure"),
            ("static | | 1", "Closure"), ("break 'a x", "Break"), ("break x", "Break"), ("continue 'a", "Continue"), ("return x", "Return"), ("yield", "Yield"),
            ("..= b", "Range"), ("a ..= b", "Range"), ("& raw mut a", "RawAddr"), ("& & a", "Reference"), ("- - a", "Unary"), ("a as u8 as u16", "Cast"),
            ("a <<= b", "Binary"), ("a | b", "Binary"), ("a .. b + 1", "Range")]
    block = [("if a { 1 } else { 2 }", "If"), ("match a { _ => 1 , }", "Match"), ("loop { }", "Loop"), ("unsafe { 1 }", "Unsafe"),
             ("async { 1 }", "Async"), ("while a { }", "While"), ("for x in y { }", "For"), ("'a : loop { }", "Loop"), ("{ 1 }", "Block"), ("const { 1 }", "Const"), ("async move { 1 }", "Async"), ("'a : { 1 }", "Block"), ("'a : while a { }", "While"),
             ("'a : for x in y { }", "For"), ("try { 1 }", "TryBlock")]
    meths = [". hk ( )", ". await", "w ( $ expr )", "w ( )", ". hk ( ) !", "w ( $ expr ) !", "w ( m ! ( ! ) ) !", ". a ( ) . b ( m ! ( ! ) )", ". field !", ". await !", ". 0 !", "w !", "[ $ expr ] !", "{ $ expr } !",
             "\"s\" !", "$ expr !", ". a ( ) . b !"]
    if not consume:
        meths = meths[:4] + [". field", "$ expr", "[ $ expr ]", ". a ( ) . b ( m ! ( ! ) )"]
    for mt in meths:
        for txt, kind in [(o, "Path") for o in ops] + weak + block:
            def leaf():
                return Verb(kind, toks(txt))
            def hd():
                return [a_method(mt, consume)]
            so = "consume" if consume else "cur"
            if kind not in ("If", "Match", "Loop", "Unsafe", "Async", "While", "For", "Block", "Return", "Const", "TryBlock") and txt != "x ?":
                yield Prog(IFn([], toks("fn f ( ) -> Result < u8 , E >"), "f", "Result", Block([SExpr(leaf(), False)]), hd()), rng=rng, so=so)
            if txt != "x ?" and kind not in ("If", "Match", "Loop", "Unsafe", "Async", "While", "For", "Block", "Return", "Const", "TryBlock"):
                yield Prog(IFn([], toks("fn f ( ) -> Result < u8 , E >"), "f", "Result",
                               Block([SExpr(E("Return", [toks("return"), leaf()]), True)]), hd()), rng=rng, so=so)
            if kind == "Path" and txt != "S { a : 1 }":
                yield Prog(IFn([], toks("fn f ( )"), "f", None, Block([SExpr(E("Try", [E("Path", [toks(txt)]) if txt != "x ?" else E("Try", [E("Path", [toks("x")]), toks("?")]), toks("?")]), True)]), hd()),
                           rng=rng, so=so)


def c03_fixed(rng):
    """Attributes of other tools on a `?` that the method consumes."""
    for at in (["allow ( x )"], ["a", "b ( 1 )"]):
        for mt in (". hk ( ) !", ". hk ( )", "w ( $ expr ) !", "# [ c ] w ( $ expr ) !"):
            for semi in (True, False):
                x = E("Try", [E("Path", [toks("x")]), toks("?")], [Attr(a, foreign=True) for a in at])
                yield Prog(IFn([], toks("fn f ( )"), "f", None, Block([SExpr(x, semi)]), [a_method(mt, True)]), rng=rng, so="consume")


class Verb(E):
    """An expression given verbatim: nothing inside it is a target."""

    def __init__(self, kind, ts):
        E.__init__(self, kind, [ts])

    def walk(self, ctx, pre=None):
        if pre is None:
            ctx.attrs(self.attrs)
        return Res(self.attr_kept() + self.parts[0], self.kind, self.parts[0][0][0] if self.kind == "Call" else None)


def consume_prog(rng):
    g = Gen(rng, q=.35, ret=.1, attrs=.12, size=30, weak=0, closures=.03,
            effects=lambda g: a_method(g.pick([". hk ( ) !", ". hk ( $ expr )", "w ( $ expr ) !", "w ( $ expr )", ". a ( ) . hk ( m ! ( ! ) ) !", ". hk ( ) . await !", "[ $ expr ] !"]), True, "Call", "w"))
    head = [a_method(g.pick([". hk ( ) !", ". hk ( )", "w ( $ expr ) !", ". x ( $ count ) !"]), True, "Call", "w")]
    return Prog(g.program(head), rng=rng, so="consume")


def programs(prop, rng, n):
    """The programs of a property's search."""
    out = []
    if prop == "C06":
        out += list(c06_fixed(rng))
        out += [c06_prog(rng) for _ in range(n)]
        return out
    if prop == "C10":
        out += list(c10_fixed(rng, False)) + list(c10_fixed(rng, True)) + [consume_prog(rng) for _ in range(n // 2)]
    if prop == "C03":
        out += list(c03_fixed(rng)) + [consume_prog(rng) for _ in range(n // 8)]
    if prop == "C07":
        out += [counts_program(rng, k) for k in (25, 25, 125, 125, 1130)]
    if prop == "C09":
        out += [sofar_program(rng, rng.choice([2, 3, 3, 4, 5])) for _ in range(n // 4)]
    return out + [profile(prop, rng) for _ in range(n)]


def run_programs(progs, sos):
    """Runs them; returns (failures, stats)."""
    by = {}
    for p in progs:
        by.setdefault(p.so, []).append(p)
    for so, ps in by.items():
        if not sos.get(so):
            for p in ps:
                p.case.out = ["badcase", "no probe"]
            continue
        for i in range(0, len(ps), 400):
            run_probe(sos[so], [p.case for p in ps[i:i + 400]])
    fails, bad, changed, errs = [], 0, set(), 0
    for p in progs:
        st = p.case.out[0]
        if st == "badcase":
            bad += 1
            continue
        if st == "err":
            errs += 1
        elif st == "ok":
            changed.add(p.case.out[1])
        why = p.check()
        if why:
            fails.append((p, why))
    return fails, dict(run=len(progs) - bad, unusable=bad, distinct_outputs=len(changed), errors_expected=errs)


if __name__ == "__main__":
    import time
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    t = time.time()
    sos = {"cur": vlib.build_probe()[0], "consume": vlib.build_probe("consume", ("consume-question",))[0]}
    progs = programs(prop, random.Random(seed), n)
    t1 = time.time()
    fails, stats = run_programs(progs, sos)
    print(stats, "gen %.1fs run %.1fs" % (t1 - t, time.time() - t1), "fails", len(fails))
    for p in [p for p in progs if p.case.out[0] == "badcase"][:int(os.environ.get("BAD", 0))]:
        print("BAD", p.case.out[1], "\n   ", p.text)
    for p, why in sorted(fails, key=lambda f: len(f[0].text))[:int(os.environ.get("SHOW", 2))]:
        print("FAIL root=%r\n   %s\n   %s" % (p.root, p.text, why))
