"""Reference model of what #[hooq] documents, on generated programs.

A program is a tree of nodes; every node prints the tokens it is written with (`src`) and the tokens the property
list says it becomes (`walk`).  Tokens are (text, id); `id` names a source token, so that `$line`/`$column` can be
computed from the layout chosen for the source.  Written from the documentation and /verif/properties.jsonl; it is an
oracle for the bounded search, never part of a proof.
"""
import itertools

_ids = itertools.count(1)


def toks(*xs):
    """Source tokens from strings (split on blanks)."""
    return [(w, next(_ids)) for x in xs for w in x.split(" ") if w]


def q(s):
    """A Rust string literal."""
    out = ['"']
    for c in s:
        out.append({'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c))
    out.append('"')
    return "".join(out)


class Err(Exception):
    """The documentation says this input is a compile error."""


# ---------------------------------------------------------------- settings
class Method:
    """A method: `insert` or not, body tokens (without the leading dot), trailing `!` consumed or not."""

    def __init__(self, text, consume_feature=False, kind=None, last=None):
        ws = [w for w in text.split(" ") if w]
        self.kind, self.last = kind, last       # syn kind of a replacement's result, when it matters
        self.insert = bool(ws) and ws[0] == "."
        self.text = ws
        self.body = ws[1:] if self.insert else list(ws)
        self.exc = False
        if consume_feature and self.body and self.body[-1] == "!":
            self.body, self.exc = self.body[:-1], True


class Attr:
    """One attribute: its tokens inside #[...] and its effect (a function of the record), or None if foreign."""

    def __init__(self, text, eff=None, foreign=False):
        self.toks = toks("# [", text, "]")
        self.eff, self.foreign, self.text = eff, foreign, text


class Rec:
    """What the attributes on one construct say."""

    def __init__(self):
        self.method = self.targets = self.tei = self.itei = self.rt = self.him = None
        self.bind, self.skip, self.skip_all = {}, False, False


class Ctx:
    def __init__(self, method, targets=("q", "r", "t"), tei=("Err",), itei=("Ok",), rt=("Result",), him=True, bind=None):
        self.methods = (method, None)            # (this one, the one it overrides)
        self.targets, self.tei, self.itei, self.rt, self.him = set(targets), list(tei), list(itei), list(rt), him
        self.bind, self.skip, self.fn = dict(bind or {}), None, None
        self.count = {"q": 0, "r": 0, "t": 0}
        self.world = {}                          # q token id -> nothing; filled by render (line requests)
        self.pos = None

    def clone(self):
        c = object.__new__(Ctx)
        c.__dict__.update(self.__dict__)
        return c

    def attrs(self, attrs):
        """-> (skipped, new context); raises Err for documented errors."""
        r = Rec()
        for a in attrs:
            if a.eff:
                a.eff(r)
        c = self.clone()
        skipped = r.skip or r.skip_all or self.skip is not None
        if self.skip != "all":
            if r.skip_all:
                c.skip = "all"
            elif r.skip:
                c.skip = "same"
        if r.method is not None:
            c.methods = (r.method, self.methods)
        for f in ("targets", "tei", "itei", "rt", "him"):
            if getattr(r, f) is not None:
                setattr(c, f, getattr(r, f))
        if r.bind:
            c.bind = dict(self.bind, **r.bind)
        return skipped, c

    def sub(self):
        c = self.clone()
        if c.skip == "same":
            c.skip = None
        return c

    def with_fn(self, info):
        c = self.clone()
        c.fn = info
        return c


class Fn:
    """The enclosing function or closure."""

    def __init__(self, name, sig, ret_last, is_fn, outer):
        self.name, self.sig, self.ret_last, self.is_fn, self.outer = name, sig, ret_last, is_fn, outer


def ordinal(n):
    if n % 100 in (11, 12, 13):
        return "%dth" % n
    return "%d%s" % (n, {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th"))


KIND_NAME = {"q": "?", "r": "return", "t": "tail expr"}
PREDEF = {"line": "line", "column": "col", "col": "col", "path": "path", "file": "file", "expr": "expr",
          "source": "source", "nth": "count", "count": "count", "fnname": "fn_name", "fn_name": "fn_name",
          "fnsig": "fn_sig", "fn_sig": "fn_sig", "sofar": "so_far", "so_far": "so_far", "bindings": "bindings",
          "vars": "bindings", "hooqmeta": "hooq_meta", "hooq_meta": "hooq_meta"}
DERIVED = "\u00a7"   # marks string literals that come from to_string(): compared without white space


def flat(ts):
    return "".join(t for t, _ in ts)


def bindings_tokens(ctx):
    out = ":: std :: collections :: HashMap :: from ( [".split()
    first = True
    for k in sorted(ctx.bind, key=lambda s: s.encode()):
        v = ctx.bind[k]
        if not first:
            out.append(",")
        first = False
        out += (":: std :: string :: ToString :: to_string (").split()
        out = out[:-len(":: std :: string :: ToString :: to_string (".split())]
        out += ["("] + ":: std :: string :: ToString :: to_string (".split() + [q(k), ")", ",", "{"]
        out += "let expr = :: std :: string :: ToString :: to_string (".split() + [q(DERIVED + "".join(v)), ")", ";"]
        out += "let value : :: std :: rc :: Rc < dyn :: std :: any :: Any > = :: std :: rc :: Rc :: new (".split()
        out += list(v) + [")", ";"] + ":: hooq :: BindingPayload { expr , value , } }".split() + [")"]
    return out + ["]", ")"]


def expand(ctx, body, chain, kind, operand, source, qid):
    """Meta variables of a method body.  `chain` is (method, overridden chain)."""
    out, i = [], 0
    n = len(body)
    while i < n:
        w = body[i]
        if w != "$":
            out.append((w, qid))
            i += 1
            continue
        if i + 1 >= n or not (body[i + 1][0].isalpha() or body[i + 1][0] == "_"):
            raise Err("$ without a name")
        name = body[i + 1]
        i += 2
        var = PREDEF.get(name)
        if var is None:
            if name not in ctx.bind:
                raise Err("unknown $" + name)
            out += [(t, qid) for t in ctx.bind[name]]
        elif var == "line":
            out.append((("line", qid), qid))
        elif var == "col":
            out.append((("col", qid), qid))
        elif var in ("path", "file"):
            out.append((q("m.rs"), qid))
        elif var == "expr":
            out += operand
        elif var == "source":
            out += source
        elif var == "count":
            out.append((q("%s %s" % (ordinal(ctx.count[kind]), KIND_NAME[kind])), qid))
        elif var == "fn_name":
            out.append((q(ctx.fn.name if ctx.fn else "<unknown>"), qid))
        elif var == "fn_sig":
            out.append((q(DERIVED + ctx.fn.sig if ctx.fn else "<unknown>"), qid))
        elif var == "so_far":
            up = chain[1]
            if up is None:
                raise Err("nothing overridden")
            out += expand(ctx, up[0].body, up, kind, operand, source, qid)
        elif var == "bindings":
            out += [(t, qid) for t in bindings_tokens(ctx)]
        else:
            out += [(t, qid) for t in ":: hooq :: HooqMeta { line :".split()] + [(("line", qid), qid), (",", qid)]
            out += [("column", qid), (":", qid), (("col", qid), qid), (",", qid)]
            cnt = q("%s %s" % (ordinal(ctx.count[kind]), KIND_NAME[kind]))
            rest = ["path", ":", q("m.rs"), ",", "file", ":", q("m.rs"), ",", "source_str", ":",
                    q(DERIVED + flat(source)), ",", "count", ":", cnt, ",", "bindings", ":"]
            out += [(t, qid) for t in rest + bindings_tokens(ctx) + [",", "}"]]
    return out


WEAK = {"Assign", "Binary", "Break", "Cast", "Closure", "Let", "Range", "RawAddr", "Reference", "Return", "Unary",
        "Yield"}
BLOCKLIKE = {"If", "Match", "Block", "Loop", "While", "For", "Unsafe", "TryBlock", "Const"}


class Res:
    """A processed expression: tokens, syn kind, and the last path ident when it is a call of a path."""
    __slots__ = ("ts", "kind", "call", "lead")

    def __init__(self, ts, kind, call=None, lead=None):
        self.ts, self.kind, self.call = ts, kind, call
        self.lead = lead if lead is not None else kind in BLOCKLIKE    # starts with a block-like expression


def hook(ctx, skipped, res, source, kind, qid):
    """-> (Res, consumed)"""
    if skipped:
        return res, False
    ctx.count[kind] += 1
    if kind not in ctx.targets:
        return res, False
    m = ctx.methods[0]
    ex = expand(ctx, m.body, ctx.methods, kind, res.ts, source, qid)
    if m.insert:
        if not ex:
            raise Err("empty method")
        base = res.ts
        lead = res.lead
        if res.kind in WEAK:
            base, lead = [("(", qid)] + base + [(")", qid)], False
        return Res(base + [(".", qid)] + ex, "MethodCall", None, lead), m.exc
    if not ex:
        raise Err("empty method")
    if m.body == ["$", "expr"]:
        return Res([(t, qid) for t, _ in ex], res.kind, res.call, res.lead), m.exc
    return Res([(t, qid) for t, _ in ex], m.kind or "Call", m.last, False), m.exc


# ---------------------------------------------------------------- nodes
class Node:
    attrs = ()

    def attr_src(self):
        return [t for a in self.attrs for t in a.toks]

    def attr_kept(self):
        return [t for a in self.attrs if a.foreign for t in a.toks]


class E(Node):
    """An expression: syn kind + parts (tokens lists, child nodes)."""

    def __init__(self, kind, parts, attrs=(), call=None, blocky=None):
        self.kind, self.parts, self.attrs, self.call = kind, parts, list(attrs), call

    def body_src(self):
        out = []
        for p in self.parts:
            out += p if isinstance(p, list) else p.src()
        return out

    def src(self):
        return self.attr_src() + self.body_src()

    def lead(self):
        """Does the text start with a block-like expression (at statement position)?"""
        if self.attrs:
            return False
        if self.kind in BLOCKLIKE:
            return True
        return bool(self.parts) and isinstance(self.parts[0], E) and self.parts[0].lead()

    LEAF = ("Path", "Lit", "Continue", "Infer", "Verbatim")

    def walk(self, ctx, pre=None):
        """-> Res.  `pre` = (skipped, ctx) when the attributes were already handled (tail position)."""
        if self.kind in self.LEAF:
            return Res((self.attr_kept() if pre else self.attr_src()) + self.body_src(), self.kind)
        if pre is None:
            skipped, ctx = ctx.attrs(self.attrs)
        else:
            skipped, ctx = pre
        kept = self.attr_kept()
        if self.kind == "Try":
            source = kept + self.body_src()
            op, qt = self.parts
            r = op.walk(ctx)
            r, eaten = hook(ctx, skipped, r, source, "q", qt[0][1])
            if eaten:
                return Res(kept + r.ts, r.kind, r.call, r.lead and not kept)
            return Res(kept + r.ts + qt, "Try", None, r.lead and not kept)
        if self.kind == "Return":
            source = kept + self.body_src()
            if len(self.parts) == 1:
                return Res(kept + self.parts[0], "Return")
            r = self.parts[1].walk(ctx)
            if call_rule(ctx, r, True):
                r, _ = hook(ctx, skipped, r, source, "r", self.parts[0][-1][1])
            return Res(kept + self.parts[0] + r.ts, "Return")
        if self.kind == "Closure":
            head, body = self.parts
            ret_last, sig = self.call
            fctx = ctx.with_fn(closure_fn(ctx.fn, flat(kept) + sig, ret_last))
            if isinstance(body, E) and body.kind == "Block":
                _, bctx = fctx.attrs(body.attrs)
                return Res(kept + head + body.attr_kept() + body_parts(body, bctx, "fn"), "Closure")
            r = tail(body, fctx, "fn")
            return Res(kept + head + r.ts, "Closure")
        if self.kind == "Macro":
            mac = self.parts[0]
            return Res(kept + mac.walk(ctx), "Macro")
        out = list(kept)
        lead, first, els = False, True, False
        for p in self.parts:
            if isinstance(p, list):
                out += p
                els = self.kind == "If" and p[-1][0] == "else"
            elif isinstance(p, E):
                r = p.walk(ctx.sub() if els else ctx)      # an else branch is a scope of its own
                out += r.ts
                if first and not kept:
                    lead = r.lead
            elif isinstance(p, Block):
                out += p.walk(ctx.sub(), "block")
            else:
                out += p.walk(ctx)
            first = False
        return Res(out, self.kind, self.call if self.kind == "Call" else None,
                   (self.kind in BLOCKLIKE and not kept) or lead)


def body_parts(blk, ctx, kind):
    out = []
    for p in blk.parts:
        out += p if isinstance(p, list) else p.walk(ctx.sub(), kind)
    return out


def closure_fn(outer, sig, ret_last):
    f = outer
    while f is not None and not f.is_fn:
        f = f.outer
    return Fn("__closure_in_%s__" % (f.name if f else "<unknown>"), sig, ret_last, False, outer)


def call_rule(ctx, r, fn_like):
    hit = r.kind == "Call" and r.call in ctx.tei
    ign = r.kind == "Call" and r.call in ctx.itei
    is_res = ctx.fn is not None and ctx.fn.ret_last is not None and ctx.fn.ret_last in ctx.rt
    return hit or (fn_like and is_res and not ign)


def tail(e, ctx, kind):
    if not isinstance(e, E):
        raise TypeError(e)
    pre = ctx.attrs(e.attrs)
    skipped, c = pre
    source = e.attr_kept() + e.body_src()
    r = e.walk(ctx, pre)
    if e.kind == "Macro":
        # the macro's own attributes are handled a second time inside; nothing is left of them
        pass
    if e.kind == "Return":
        return r
    if call_rule(c, r, kind == "fn"):
        qid = r.ts[0][1]
        r, _ = hook(c, skipped, r, source, "t", qid)
    return r


class Block(Node):
    """`{ stmts }`."""

    def __init__(self, stmts):
        self.stmts = stmts
        self.o, self.c = toks("{"), toks("}")

    def src(self):
        return self.o + [t for s in self.stmts for t in s.src()] + self.c

    def walk(self, ctx, kind):
        """ctx: already the sub-scope's context."""
        out = list(self.o)
        for i, s in enumerate(self.stmts):
            out += s.walk(ctx, kind if i == len(self.stmts) - 1 else None)
        return out + self.c


def stmt_lead(r):
    return [("(", 0)] + r.ts + [(")", 0)] if False else r.ts


class SExpr(Node):
    """An expression statement; semi: has a `;`."""

    def __init__(self, e, semi):
        self.e, self.semi = e, toks(";") if semi else []

    def src(self):
        return self.e.src() + self.semi

    def walk(self, ctx, kind):
        if not self.semi and kind and not (self.e.kind == "Macro" and self.e.parts[0].brace):
            r = tail(self.e, ctx, kind)
        else:
            r = self.e.walk(ctx)
        return stmt_paren(r) + self.semi


def stmt_paren(r):
    """syn prints a statement that begins with a block-like expression followed by more with parentheses round it."""
    return r.ts


class SLet(Node):
    def __init__(self, pat, init, els=None, attrs=()):
        self.pat, self.init, self.els, self.attrs = pat, init, els, list(attrs)
        self.letk, self.semi = toks("let"), toks(";")
        self.eq = toks("=") if init else []
        self.elk = toks("else") if els else []

    def src(self):
        return (self.attr_src() + self.letk + self.pat + self.eq + (self.init.src() if self.init else []) + self.elk
                + (self.els.src() if self.els else []) + self.semi)

    def walk(self, ctx, kind):
        if not self.init:
            return self.src()
        _, c = ctx.attrs(self.attrs)
        out = self.attr_kept() + self.letk + self.pat + self.eq + self.init.walk(c).ts
        if self.els:
            out += self.elk + self.els.walk(c.sub(), "block")
        return out + self.semi


class SItem(Node):
    def __init__(self, item):
        self.item = item

    def src(self):
        return self.item.src()

    def walk(self, ctx, kind):
        return self.item.walk(ctx)


class Mac(Node):
    """path ! delim tokens; frags: list of (node, punct tokens) or None when the tokens are not hookable."""

    def __init__(self, path, delim, frags=None, raw=None):
        self.path, self.brace = path, delim == "{"
        self.o, self.c = toks(delim), toks({"(": ")", "[": "]", "{": "}"}[delim])
        self.frags, self.raw = frags, raw

    def src(self):
        inner = self.raw if self.frags is None else [t for n, p in self.frags for t in n.src() + p]
        return self.path + self.o + inner + self.c

    def walk(self, ctx):
        if self.frags is None or not ctx.him:
            return self.src()
        out = []
        for n, p in self.frags:
            if isinstance(n, E):
                out += n.walk(ctx).ts
            elif isinstance(n, (SLet, SExpr)):
                out += n.walk(ctx, None)
            else:
                out += n.walk(ctx)
            out += p
        return self.path + self.o + out + self.c


class SMac(Node):
    """A statement / item / member macro."""

    def __init__(self, mac, semi, attrs=()):
        self.mac, self.semi, self.attrs = mac, toks(";") if semi else [], list(attrs)

    def src(self):
        return self.attr_src() + self.mac.src() + self.semi

    def walk(self, ctx, kind=None):
        _, c = ctx.attrs(self.attrs)
        return self.attr_kept() + self.mac.walk(c) + self.semi


class Arm(Node):
    def __init__(self, pat, guard, body, attrs=(), comma=True):
        self.pat, self.guard, self.body, self.attrs = pat, guard, body, list(attrs)
        self.ifk, self.arrow, self.comma = toks("if") if guard else [], toks("=>"), toks(",") if comma else []

    def src(self):
        return (self.attr_src() + self.pat + self.ifk + (self.guard.src() if self.guard else []) + self.arrow
                + self.body.src() + self.comma)

    def walk(self, ctx):
        """ctx: the match's sub-scope."""
        _, c = ctx.attrs(self.attrs)
        out = self.attr_kept() + self.pat + self.ifk
        if self.guard:
            out += self.guard.walk(c).ts
        r = self.body.walk(c) if self.body.kind == "Block" else tail(self.body, c, "block")
        return out + self.arrow + r.ts + self.comma


class Arms(Node):
    def __init__(self, arms):
        self.arms = arms
        self.o, self.c = toks("{"), toks("}")

    def src(self):
        return self.o + [t for a in self.arms for t in a.src()] + self.c

    def walk(self, ctx):
        c = ctx.sub()
        return self.o + [t for a in self.arms for t in a.walk(c)] + self.c


class Field(Node):
    def __init__(self, name, e, attrs=()):
        self.name, self.e, self.attrs = name, e, list(attrs)

    def src(self):
        return self.attr_src() + self.name + self.e.src()

    def walk(self, ctx):
        _, c = ctx.attrs(self.attrs)
        return self.attr_kept() + self.name + self.e.walk(c).ts


class IFn(Node):
    """fn item or member; body None: no default."""

    def __init__(self, vis, sig, name, ret_last, body, attrs=()):
        self.vis, self.sig, self.name, self.ret_last, self.body, self.attrs = vis, sig, name, ret_last, body, list(attrs)
        self.semi = toks(";") if body is None else []

    def src(self):
        return self.attr_src() + self.vis + self.sig + (self.body.src() if self.body else []) + self.semi

    def walk(self, ctx):
        if self.body is None:
            return self.src()
        _, c = ctx.attrs(self.attrs)
        c = c.with_fn(Fn(self.name, flat(self.sig), self.ret_last, True, c.fn))
        return self.attr_kept() + self.vis + self.sig + self.body.walk(c.sub(), "fn")


class IVal(Node):
    """const / static, item or member: head tokens `const X : T =`, value, `;`."""

    def __init__(self, head, e, attrs=()):
        self.head, self.e, self.attrs, self.semi = head, e, list(attrs), toks(";")

    def src(self):
        return self.attr_src() + self.head + self.e.src() + self.semi

    def walk(self, ctx):
        _, c = ctx.attrs(self.attrs)
        return self.attr_kept() + self.head + self.e.walk(c).ts + self.semi


class IBody(Node):
    """mod / impl / trait: head tokens, members."""

    def __init__(self, head, members, attrs=()):
        self.head, self.members, self.attrs = head, members, list(attrs)
        self.o, self.c = toks("{"), toks("}")

    def src(self):
        return self.attr_src() + self.head + self.o + [t for m in self.members for t in m.src()] + self.c

    def walk(self, ctx):
        _, c = ctx.attrs(self.attrs)
        return self.attr_kept() + self.head + self.o + [t for m in self.members for t in m.walk(c)] + self.c


class IRaw(Node):
    """An item or member hooq does not look into."""

    def __init__(self, ts):
        self.ts = ts

    def src(self):
        return self.ts

    def walk(self, ctx):
        return self.ts


class Items(Node):
    """Several items in a row (a macro fragment)."""

    def __init__(self, items, pre=()):
        self.items, self.pre = items, list(pre)

    def src(self):
        return self.pre + [t for i in self.items for t in i.src()]

    def walk(self, ctx):
        return self.pre + [t for i in self.items for t in i.walk(ctx)]
