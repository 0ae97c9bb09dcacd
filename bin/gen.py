"""Random programs for the bounded search (see model.py)."""
from model import *

PATTERNS = ["x", "_", "( x , _ )", "Some ( x )", "S { a , .. }", "& x", "ref y", "mut z", "Ok ( v )", "[ a , b , .. ]"]
ARM_PATS = PATTERNS + ["1 | 2", "A :: B", "0 ..= 9", "x @ Some ( _ )"]
TYPES = ["u8", "Vec < Result < u8 , E > >", "& str", "( u8 , String )", "[ u8 ; 3 ]", "Box < dyn Tr >"]
# (tokens after `->`, last path ident or None when the type is not a path)
RETS = [("Result < u8 , E >", "Result"), ("Result < u8 , E >", "Result"), ("std :: result :: Result < ( ) , E >", "Result"),
        ("io :: Result < ( ) >", "Result"), ("MyRes < u8 >", "MyRes"), ("a :: MyRes", "MyRes"), ("Option < u8 >", "Option"),
        ("u8", "u8"), ("( )", None), ("& 'static Result < ( ) , E >", None), ("( Result < u8 , E > )", None),
        ("impl Into < Result < u8 , E > >", None), ("Result < u8 , E > :: Assoc", "Assoc"), ("Vec < Result < u8 , E > >", "Vec"),
        ("< T as Tr > :: Result", "Result"), ("! ", None), ("[ Result < u8 , E > ; 2 ]", None), ("Result2 < u8 >", "Result2")]
# (callee tokens, last ident when it is a path)
CALLEES = [("f", "f"), ("g", "g"), ("Err", "Err"), ("Ok", "Ok"), ("Err", "Err"), ("Ok", "Ok"), ("Result :: Err", "Err"),
           ("Result :: < u8 , E > :: Ok", "Ok"), ("Err :: < u8 , E >", "Err"), ("a :: b :: h", "h"), ("< R as X > :: Err", "Err"),
           ("Bail", "Bail"), ("x :: Bail", "Bail"), ("Err :: new", "new"), ("Errr", "Errr")]
FOREIGN = ["allow ( unused )", "doc = \"d\"", "cfg ( all ( ) )", "inline", "hooqx :: skip", "not_hooq", "a :: hooq :: skip", "rustfmt :: skip"]


class Gen:
    def __init__(self, rng, **p):
        self.r = rng
        self.p = dict(q=0.25, ret=0.05, attrs=0.0, foreign=0.03, macros=0.08, closures=0.06, items=0.05, blocks=0.2,
                      kinds=None, methods=None, effects=None, size=40, nightly=True, unhook=0.3, weak=0.15, ret_tails=0.1,
                      lookalike=0.15)
        self.p.update(p)
        self.fuel = 0
        self.n = 0

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    def chance(self, k):
        return self.r.random() < self.p[k]

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    # -------------------------------------------------- attributes
    def attr_list(self, boost=1.0, hooq=True):
        out = []
        while hooq and self.r.random() < self.p["attrs"] * boost and len(out) < 4 and self.p["effects"]:
            out.append(self.p["effects"](self))
        while self.chance("foreign") and len(out) < 5:
            out.insert(self.r.randrange(len(out) + 1), Attr(self.pick(FOREIGN), foreign=True))
        return out

    # -------------------------------------------------- expressions
    def any(self, ns=False):
        """An expression for a position that takes any expression."""
        self.fuel -= 1
        if self.fuel > 0 and self.r.random() < self.p["weak"]:
            k = self.r.randrange(9)
            if k == 0:
                return E("Binary", [self.unary(ns), toks(self.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<"])), self.unary(ns)])
            if k == 1:
                return E("Binary", [self.unary(ns), toks(self.pick(["==", "!=", "&&", "||", ">="])), self.unary(ns)])
            if k == 2:
                return E("Assign", [self.unary(ns), toks("="), self.any(ns)])
            if k == 3:
                return E("Binary", [self.unary(ns), toks(self.pick(["+=", "-=", "<<=", "|="])), self.any(ns)])
            if k == 4:
                return E("Cast", [self.unary(ns), toks("as"), toks(self.pick(["u8", "usize", "Foo < u8 >"]))])
            if k == 5:
                a = self.paren() if self.r.random() < .7 else None
                b = self.paren() if (a is None or self.r.random() < .7) else None
                return E("Range", ([a] if a else []) + [toks(".." if b is None or self.r.random() < .5 else "..=")] + ([b] if b else []))
            if k == 6:
                return self.closure()
            if k == 7:
                j = self.r.random()
                kw, kind = ("return", "Return") if j < .6 else (("break", "Break") if j < .85 or not self.p["nightly"] else ("yield", "Yield"))
                v = [self.unary(True) if ns else (self.any() if self.r.random() < .5 else self.unary())] if self.r.random() < .85 else []
                if kind == "Break" and v and v[0].lead():
                    v = [E("Paren", [toks("("), v[0], toks(")")])]
                if kind == "Break" and v:
                    strip_attrs_left(v[0])
                if kind == "Break" and self.r.random() < .4:
                    kw = self.pick(["break 'a", "break 'lab"])
                return E(kind, [toks(kw)] + v, self.attr_list() if not ns else ())
            return self.unary(ns)
        if self.fuel > 0 and self.chance("ret"):
            return E("Return", [toks("return"), self.unary(ns)], self.attr_list() if not ns else ())
        return self.unary(ns)

    def unary(self, ns=False):
        self.fuel -= 1
        j = self.r.random()
        if self.fuel > 0 and j < .08:
            k = self.r.randrange(6)
            op = ["-", "!", "*", "&", "& mut", "& raw const"][k]
            return E(["Unary", "Unary", "Unary", "Reference", "Reference", "RawAddr"][k], [toks(op), self.noattr_unary(ns)],
                     self.attr_list() if not ns else ())
        e = self.post(ns)
        if not ns:
            e.attrs = self.attr_list(hooq=e.kind not in E.LEAF)
        return e

    def noattr_unary(self, ns):
        e = self.post(ns)
        return e

    def paren(self):
        return E("Paren", [toks("("), self.any(), toks(")")])

    def args(self):
        out = [toks("(")]
        n = self.r.choice([0, 1, 1, 1, 2, 3])
        for i in range(n):
            out.append(self.any())
            if i < n - 1 or self.r.random() < .15:
                out.append(toks(","))
        return out + [toks(")")]

    def post(self, ns=False):
        """A postfix-level expression without attributes of its own."""
        self.fuel -= 1
        if self.fuel <= 0:
            return self.atom(ns)
        j = self.r.random()
        if j < self.p["q"]:
            return E("Try", [self.post(ns), toks("?")])
        j = (j - self.p["q"]) / (1 - self.p["q"])
        if j < .22:
            c, last = self.pick(CALLEES)
            return E("Call", [E("Path", [toks(c)])] + self.args(), call=last)
        if j < .25:
            return E("Call", [E("Paren", [toks("("), E("Path", [toks(self.pick(["Err", "f"]))]), toks(")")])] + self.args())
        if j < .28:
            r = self.post(ns)
            if r.kind == "Path":
                return E("Call", [r] + self.args(), call=r.parts[0][-1][0])
            if r.kind in ("Lit", "Field"):
                r = E("Paren", [toks("("), r, toks(")")])
            return E("Call", [r] + self.args())
        if j < .40:
            m = self.pick(["m", "into", "m :: < u8 >", "err"])
            return E("MethodCall", [self.recv(ns), toks(".", m)] + self.args())
        if j < .44:
            return E("Field", [self.recv(ns), toks(".", self.pick(["a", "0", "field"]))])
        if j < .47:
            return E("Await", [self.recv(ns), toks(".", "await")])
        if j < .50:
            return E("Index", [self.recv(ns), toks("["), self.any(), toks("]")])
        if j < .55:
            return self.paren()
        if j < .58:
            return self.seq("Array", "[", "]")
        if j < .61:
            return self.seq("Tuple", "(", ")")
        if j < .63:
            return E("Repeat", [toks("["), self.any(), toks(";"), self.any(), toks("]")])
        if j < .66 and not ns:
            return self.struct()
        if j < .66 + self.p["macros"]:
            return E("Macro", [self.mac()])
        if j < .66 + self.p["macros"] + self.p["closures"] and not ns:
            return E("Paren", [toks("("), self.closure(), toks(")")])
        if j < .66 + self.p["macros"] + self.p["closures"] + self.p["blocks"] and not ns:
            return self.blocky()
        return self.atom(ns)

    def recv(self, ns):
        e = self.post(ns)
        if e.kind == "Lit":
            return E("Paren", [toks("("), e, toks(")")])
        return e

    def seq(self, kind, o, c):
        n = self.r.choice([0, 1, 2, 3])
        out = [toks(o)]
        for i in range(n):
            out.append(self.any())
            if i < n - 1 or (kind == "Tuple" and n == 1) or self.r.random() < .1:
                out.append(toks(","))
        return E(kind, out + [toks(c)])

    def struct(self):
        out = [toks(self.pick(["S", "a :: S", "S :: < u8 >"])), toks("{")]
        n = self.r.choice([0, 1, 2])
        rest = self.r.random() < .3
        for i in range(n):
            out.append(Field(toks(self.pick(["a", "b", "c"]), ":"), self.any(), self.attr_list()))
            if i < n - 1 or rest or self.r.random() < .2:
                out.append(toks(","))
        if rest:
            out += [toks(".."), self.any()]
        return E("Struct", out + [toks("}")])

    def atom(self, ns):
        j = self.r.random()
        if j < .6:
            return E("Path", [toks(self.pick(["x", "y", "a :: B", "self", "T :: < u8 > :: C"]))])
        if j < .95:
            return E("Lit", [toks(self.pick(["1", "2.5", '"s?"', "'c'", "true", 'b"x"', 'r#"?return"#']))])
        return E("Continue", [toks("continue")]) if self.r.random() < .5 and not ns else E("Lit", [toks("0u8")])

    def closure(self):
        head = toks(self.pick(["", "move", "async", "async move"])) if self.r.random() < .3 else []
        pats = self.pick(["| |", "||", "| x |", "| x , y |", "| & a : & u8 , _ |"])
        head += toks(pats)
        if self.r.random() < .5:
            txt, last = self.pick(RETS)
            head += toks("->", txt)
            b = self.block()
            body = E("Block", [b])
            if self.p["attrs"] and self.r.random() < 0:
                body.attrs = self.attr_list()
        else:
            last = None
            if self.r.random() < .3:
                body = E("Block", [self.block()])
            else:
                body = self.any()
        return E("Closure", [head, body], call=(last, flat(head) + "{}"))

    # -------------------------------------------------- blocks and statements
    def block(self, force=False):
        stmts = []
        n = self.r.choice([0, 1, 1, 2, 3]) if self.fuel > 0 or force else self.r.choice([0, 1])
        for _ in range(n):
            stmts.append(self.stmt())
        if self.r.random() < .65:
            stmts.append(SExpr(self.tail_expr(), False))
        return Block(stmts)

    def tail_expr(self):
        j = self.r.random()
        if self.chance("ret_tails"):
            e = E("Return", [toks("return"), self.unary()], self.attr_list())
        elif j < .35:
            c, last = self.pick(CALLEES)
            e = E("Call", [E("Path", [toks(c)])] + self.args(), self.attr_list(), call=last)
        elif j < .5 and self.p["blocks"]:
            e = self.blocky()
            e.attrs = self.attr_list()
            return e
        else:
            e = self.any()
        return self.stmt_safe(e)

    def stmt_safe(self, e):
        """Keep an expression from being cut short at a statement position."""
        if e.kind in BLOCKLIKE:
            if e.kind == "Const" or e.kind == "TryBlock":
                return E("Paren", [toks("("), e, toks(")")])
            return e
        if leftmost_blocky(e):
            return E("Paren", [toks("("), e, toks(")")])
        if e.kind in ("Macro",) and e.parts[0].brace:
            return E("Paren", [toks("("), e, toks(")")])
        if leftmost_macro_brace(e):
            return E("Paren", [toks("("), e, toks(")")])
        if e.kind == "Range" and not isinstance(e.parts[0], E):
            return E("Paren", [toks("("), e, toks(")")])
        return e

    def stmt(self):
        j = self.r.random()
        if j < .3:
            return self.let()
        if j < .3 + self.p["items"]:
            return SItem(self.item(True))
        if j < .36 + self.p["macros"] * .7:
            brace = self.r.random() < .3
            return SMac(self.mac("{" if brace else None), not brace, self.attr_list())
        if j < .75:
            return SExpr(self.stmt_safe(self.any()), True)
        e = self.blocky()
        if e.kind in ("Const", "TryBlock", "Async"):
            return SExpr(E("Paren", [toks("("), e, toks(")")]), True)
        e.attrs = self.attr_list()
        return SExpr(e, self.r.random() < .3)

    def let(self):
        pat = toks(self.pick(["x", "mut y", "( a , b )", "_", "S { a , b }"]))
        if self.r.random() < .3:
            pat += toks(":", self.pick(TYPES))
        j = self.r.random()
        if j < .08:
            return SLet(pat, None, None, self.attr_list(hooq=False))
        if j < .2:
            e = self.post()
            if trailing_brace(e):
                e = E("Paren", [toks("("), e, toks(")")])
            return SLet(toks("Some ( v )"), e, E("Block", [self.block()]) if False else self.else_block(), self.attr_list())
        return SLet(pat, self.any(), None, self.attr_list())

    def else_block(self):
        b = self.block()
        return ElseBlock(b)

    def cond(self):
        if self.r.random() < .25:
            return E("Let", [toks("let"), toks(self.pick(PATTERNS)), toks("="), self.post(True)])
        if self.r.random() < .15:
            return E("Binary", [E("Let", [toks("let Some ( v ) ="), self.post(True)]), toks("&&"), self.unary(True)])
        return self.any_ns()

    def any_ns(self):
        e = self.unary(True)
        if self.r.random() < .2:
            return E("Binary", [e, toks(self.pick(["==", "<", "&&"])), self.unary(True)])
        return e

    def label(self):
        return toks(self.pick(["'a :", "'lab :"])) if self.r.random() < .1 else []

    def blocky(self):
        self.fuel -= 2
        k = self.r.randrange(13)
        if k < 3:
            parts = [toks("if"), self.cond(), self.block()]
            while self.r.random() < .5:
                if self.r.random() < .4:
                    # else if is itself an expression
                    inner = E("If", [toks("if"), self.cond(), self.block()])
                    if self.r.random() < .6:
                        inner.parts += [toks("else"), E("Block", [self.block()])]
                    parts += [toks("else"), inner]
                else:
                    parts += [toks("else"), E("Block", [self.block()])]
                break
            return E("If", parts)
        if k < 6:
            arms = []
            for _ in range(self.r.choice([0, 1, 2, 3])):
                g = self.cond() if self.r.random() < .25 else None
                comma = True
                if self.r.random() < .25:
                    body = E("Block", [self.block()])
                    comma = self.r.random() < .5
                elif self.r.random() < .3:
                    c, last = self.pick(CALLEES)
                    body = E("Call", [E("Path", [toks(c)])] + self.args(), call=last)
                elif self.chance("ret_tails"):
                    body = E("Return", [toks("return"), self.unary()], self.attr_list())
                else:
                    body = self.stmt_safe(self.any())
                    if body.kind in BLOCKLIKE:
                        body.attrs = []
                arms.append(Arm(toks(self.pick(ARM_PATS)), g, body, self.attr_list(), comma))
            return E("Match", [toks("match"), self.any_ns(), Arms(arms)])
        if k == 6:
            return E("While", [self.label() + toks("while"), self.cond(), self.block()])
        if k == 7:
            return E("For", [self.label() + toks("for", self.pick(PATTERNS), "in"), self.any_ns(), self.block()])
        if k == 8:
            return E("Loop", [self.label() + toks("loop"), self.block()])
        if k == 9:
            return E("Unsafe", [toks("unsafe"), self.block()])
        if k == 10:
            return E("Async", [toks(self.pick(["async", "async move"])), self.block()])
        if k == 11:
            return E("Const", [toks("const"), self.block()]) if self.r.random() < .6 or not self.p["nightly"] else E("TryBlock", [toks("try"), self.block()])
        return E("Block", [self.label() + [], self.block()] if False else [self.block()])

    # -------------------------------------------------- macros
    RAW = ["x => y ?", "a ? b ?", "$ x : expr", "x ? => { return Err ( 1 ) }", "a b c", "k = v ? ; => ", "@ x ? , y", "if ?",
           "fn", "match", "( a ? ) ( => )  x y", "# [ hooq :: skip ] x ? y", "x ? : u8", ". a ? , b ?", "1 2 ?", "- > x ?", "f ( ) ? , # nope", "x ? ; # 1 y ?", "x ? , # # y ?", "x ? , y ? z ? , w ?", "x ? ; fn", "x ? , => y ?",
           "x ? => y ?", "a ? => { b ? }", "x ? , y ? => z ?", "; x ?", ", x ?", "x ? ; ; y ?", "x ? , , y ?", "; ;", ", ,", "x ? ; ,", "x ? | y ? =>", "x ? : y ?",
           "x ? .. = = y ?", "let a = x ? => y ?", "let a = x ? , => y", "x ? # y", "x ? @ y ?", "x ? ~ y ?", "x ? $ y ?", "fn f ( ) { x ? } => y ?", "fn f ( ) { x ? } , ;"]

    def mac(self, delim=None):
        path = toks(self.pick(["m", "println", "std :: vec", "a :: b :: mm"]), "!")
        delim = delim or self.pick(["(", "[", "("])
        if self.chance("unhook"):
            return Mac(path, delim, None, toks(self.pick(self.RAW)))
        frags = []
        n = self.r.choice([0, 1, 1, 2, 3])
        for i in range(n):
            j = self.r.random()
            sep = toks(self.pick([",", ",", ";"]))
            last = i == n - 1
            if last and self.r.random() < .75:
                sep = []
            if j < .66:
                e = self.any()
                if e.kind == "Verbatim":
                    e = self.paren()
                frags.append((self.frag_safe(e), sep))
            elif j < .8:
                frags.append((E("Let", [toks("let", self.pick(["x", "Some ( v )", "_"]), "="), self.post_nb()]), sep))
            elif j < .87:
                frags.append((SLet(toks("x : u8"), self.any()), sep if sep or last else toks(";")))
            elif j < .93:
                one = bool(sep) or not last
                frags.append((Items([self.item(True) for _ in range(1 if one else self.r.choice([1, 1, 2]))],
                                    toks(self.inner_attrs()) if not one and self.r.random() < .3 else []), sep))
            elif last and self.r.random() < .5:
                frags.append((Items([], toks(self.inner_attrs())), []))
        return Mac(path, delim, frags)

    def inner_attrs(self):
        return " ".join(["# ! [ allow ( x ) ]", "# ! [ cfg ( y ) ]", "# ! [ doc = \"z\" ]"][:self.pick([1, 1, 2, 3])])

    def post_nb(self):
        e = self.post()
        return E("Paren", [toks("("), e, toks(")")]) if leftmost_blocky(e) else e

    def frag_safe(self, e):
        # `m!{..}` or `m!(..);` alone may be read as an item; the result is the same
        if e.kind not in BLOCKLIKE and leftmost_blocky(e):
            return E("Paren", [toks("("), e, toks(")")])
        if e.kind == "Const":
            return E("Paren", [toks("("), e, toks(")")])
        return e

    # -------------------------------------------------- items
    def fn(self, vis=True, default=True, member=False, attrs=None):
        name = self.name("fun")
        quals = self.pick(["", "", "", "const", "async", "unsafe", 'extern "C"'])
        args = self.pick(["( )", "( x : u8 )", "( mut a : & str , b : Vec < u8 > )"])
        if member:
            args = self.pick(["( & self )", "( & mut self , x : u8 )", args])
        sig = quals + " fn " + name + self.pick(["", "", " < T >", " < 'a , T : Tr >"]) + " " + args
        last = None
        if self.r.random() < .85:
            txt, last = self.pick(RETS)
            sig += " -> " + txt
        if "< T" in sig and self.r.random() < .3:
            sig += " where T : Copy"
        body = self.block(True) if default else None
        return IFn(toks(self.pick(["", "pub", "pub ( crate )"])) if vis else [], toks(sig), name, last, body,
                   self.attr_list(hooq=default) if attrs is None else attrs)

    def raw_item(self):
        return IRaw(toks(self.pick(["struct S { a : u8 }", "enum En { A , B = 1 }", "use a :: b ;", "type T = u8 ;",
                                    "extern crate x ;", "# [ derive ( Debug ) ] struct U ;", "union Un { a : u8 }", "mod out ;",
                                    "macro_rules ! mr { ( $ x : expr ) => { $ x ? } }", "extern \"C\" { fn cf ( ) ; }"])))

    def item(self, local=False):
        self.fuel -= 2
        j = self.r.random()
        if self.fuel <= 0 and j > .2:
            return self.raw_item()
        if j < .4:
            return self.fn()
        if j < .5:
            kw = self.pick(["const", "static", "static mut"])
            return IVal(toks(kw, "CV", ":", self.pick(TYPES), "="), self.any(), self.attr_list())
        if j < .62:
            return self.impl()
        if j < .72:
            return self.trait()
        if j < .82:
            return IBody(toks(self.pick(["mod mm", "pub mod mm"])), [self.item() for _ in range(self.r.choice([0, 1, 2]))], self.attr_list())
        if j < .88:
            brace = self.r.random() < .5
            return SMac(self.mac("{" if brace else None), not brace, self.attr_list())
        return self.raw_item()

    def impl(self):
        ms = []
        for _ in range(self.r.choice([0, 1, 2, 3])):
            j = self.r.random()
            if j < .65:
                ms.append(self.fn(member=True))
            elif j < .8:
                ms.append(IVal(toks("const C : u8 ="), self.any(), self.attr_list()))
            elif j < .9:
                brace = self.r.random() < .5
                ms.append(SMac(self.mac("{" if brace else None), not brace, self.attr_list()))
            else:
                ms.append(IRaw(toks("type A = u8 ;")))
        return IBody(toks(self.pick(["impl S", "impl < T > Tr for S < T >", "unsafe impl X for Y"])), ms, self.attr_list())

    def trait(self):
        ms = []
        for _ in range(self.r.choice([0, 1, 2, 3])):
            j = self.r.random()
            if j < .5:
                ms.append(self.fn(vis=False, member=True))
            elif j < .65:
                ms.append(self.fn(vis=False, default=False, member=True))
            elif j < .8:
                ms.append(IVal(toks("const C : u8 ="), self.any(), self.attr_list()))
            elif j < .85:
                ms.append(IRaw(toks("const D : u8 ;")))
            elif j < .93:
                brace = self.r.random() < .5
                ms.append(SMac(self.mac("{" if brace else None), not brace, self.attr_list()))
            else:
                ms.append(IRaw(toks("type A ;")))
        return IBody(toks(self.pick(["trait Tr", "pub trait Tr2 < T > : X"])), ms, self.attr_list())

    def program(self, head_attrs):
        """A whole item with the given attributes in front."""
        self.fuel = self.p["size"]
        j = self.r.random()
        if j < .6:
            it = self.fn(attrs=[])
        elif j < .75:
            it = self.impl()
        elif j < .85:
            it = self.trait()
        elif j < .95:
            it = IBody(toks("mod mm"), [self.item() for _ in range(3)])
        else:
            it = IVal(toks("const CV : u8 ="), self.any())
        it.attrs = list(head_attrs) + self.attr_list()
        return it


class ElseBlock(Node):
    """The diverging block of let-else."""

    def __init__(self, b):
        self.b = b

    def src(self):
        return self.b.src()

    def walk(self, ctx, kind):
        return self.b.walk(ctx, kind)


def leftmost_blocky(e):
    if e.kind in BLOCKLIKE or e.kind == "Async" and False:
        return True
    if not e.parts or not isinstance(e.parts[0], E):
        return False
    return leftmost_blocky(e.parts[0])


def leftmost_macro_brace(e):
    if e.kind == "Macro":
        return e.parts[0].brace
    if not e.parts or not isinstance(e.parts[0], E):
        return False
    return leftmost_macro_brace(e.parts[0])


def strip_attrs_left(e):
    e.attrs = []
    if e.parts and isinstance(e.parts[0], E):
        strip_attrs_left(e.parts[0])


def trailing_brace(e):
    return True


# ---------------------------------------------------------------- layout
def layout(ts, rng, wild):
    """-> (text, {id: (line offset, column)}): prints the tokens with random white space."""
    out, pos, line, col = [], {}, 0, 1
    for t, i in ts:
        pos[i] = (line, col)
        out.append(t)
        col += len(t)
        if wild and rng.random() < wild:
            k = rng.choice([1, 1, 2, 3])
            ind = rng.randrange(12)
            out.append("\n" * k + " " * ind)
            line += k
            col = 1 + ind
        else:
            k = rng.choice([1, 1, 1, 2]) if wild else 1
            out.append(" " * k)
            col += k
    return "".join(out), pos


def expected(ts, pos, line0):
    """Expected token text; line0: source line on which the program's text starts."""
    out = []
    for t, i in ts:
        if isinstance(t, tuple):
            what, qid = t
            l, c = pos[qid]
            t = "%dusize" % (line0 + l if what == "line" else c)
        out.append(t)
    return " ".join(out)
