"""Random expressions in random layouts through the four helper macros (C14, C15, C16, C19), against a reference written from the
documentation: the expected text is computed from the layout of the source, not by the code under test."""
import random, time
import vlib

RULE = ("random expressions, each token laid out with random blanks, line breaks and comments, passed to the helper macros with random options"
        " inside a real procedural macro (real line/column positions), compared character by character with the text computed from the"
        " layout; non-trivial = distinct results")

LETTERS = "abcdefghij klmnop.,-_é漢字ß😀λ"
SIMPLE_ESC = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\"": "\\\"", "\\": "\\\\", "\0": "\\0"}


class Lit:
    """An ordinary string literal: how it is written and what it means; `seen` is false inside a macro call."""

    def __init__(self, text, value, seen=True):
        self.text, self.value, self.seen = text, value, seen


def escape(v):
    return '"' + "".join(SIMPLE_ESC.get(c, c) for c in v) + '"'


def a_value(rng, focus):
    n = rng.choice([0, 1, 2, 3, 5, 9, 10, 11, 12, 14, 20, 33, 33, 45, 70, 130, 260]) if focus else rng.choice([0, 3, 6, 10])
    ls = []
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if focus else rng.choice([1, 1, 1, 1, 1, 1, 2, 3, 12])):
        l = "".join(rng.choice(LETTERS) for _ in range(max(0, n + rng.choice([-1, 0, 0, 1, 4, 9] if focus else [0]))))
        if focus and rng.random() < .25:
            p = rng.randrange(len(l) + 1)
            l = l[:p] + rng.choice(["\t", "\\", '"', "\r", "\0"]) + l[p:]
        if focus and rng.random() < .1:
            l += "\r"
        ls.append(l)
    if focus and rng.random() < .15:
        ls.append("")
    return "\n".join(ls)


def a_lit(rng, focus, seen=True):
    v = a_value(rng, focus)
    r = rng.random()
    if r < .15 and "\r" not in v and "\0" not in v:
        h = "#" * rng.choice([1, 2])
        if '"' + h not in v:
            return Lit('r%s"%s"%s' % (h, v, h), v, seen)
    out = '"'
    for c in v:
        if c == "\n":
            out += rng.choice(["\n", "\\n"])
        elif c in SIMPLE_ESC:
            out += SIMPLE_ESC[c] if c != "\t" or rng.random() < .5 else "\t"
        elif rng.random() < .04:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return Lit(out + '"', v, seen)


class Gen:
    def __init__(self, rng, focus, size):
        self.r, self.focus, self.left = rng, focus, size

    def ident(self):
        return self.r.choice(["a", "b", "foo", "bar", "value", "x1", "名前"])

    def commas(self, d, tail=True):
        out = []
        for i in range(self.r.choice([0, 1, 1, 2, 3])):
            out += ([","] if i else []) + self.expr(d)
        if out and tail and self.r.random() < .25:
            out.append(",")
        return out

    def atom(self, d):
        r, k = self.r, self.r.random()
        self.left -= 1
        if d <= 0 or self.left <= 0 or k < .25:
            if r.random() < (.6 if self.focus else .12):
                return [a_lit(r, self.focus)]
            return r.choice([[self.ident()], [str(r.randrange(1000))], [self.ident(), "::", self.ident()], ["true"], ["1.5"], ["b\"raw bytes, many of them\""], ["'c'"]])
        if k < .40:
            g = ["::", "<", "u8", ">"] if r.random() < .15 else []
            return [self.ident()] + g + ["("] + self.commas(d - 1) + [")"]
        if k < .47:
            return ["("] + self.expr(d - 1) + [")"]
        if k < .54:
            return ["["] + self.commas(d - 1) + ["]"]
        if k < .60:
            return self.macro(d - 1)
        if k < .68:
            return self.block(d - 1)
        if k < .76:
            return ["if", self.ident(), *(["("] + self.commas(d - 1) + [")"])] + self.block(d - 1) + (["else"] + self.block(d - 1) if r.random() < .6 else [])
        if k < .84:
            out = ["match", self.ident(), "{"]
            for _ in range(r.choice([1, 2, 3])):
                out += r.choice([["_"], [self.ident(), "(", "_", ")"], ["1", "|", "2"], [a_lit(r, self.focus)], ["Some", "(", "..", ")"]])
                out += ["=>"] + self.expr(d - 1) + [","]
            return out + ["}"]
        if k < .90:
            return ["Struct", "{", "f", ":"] + self.expr(d - 1) + ([",", "g"] if r.random() < .5 else []) + ([",", "..", self.ident()] if r.random() < .3 else []) + ["}"]
        return ["loop", "{", "break", ";", "}"] if r.random() < .3 else ["unsafe"] + self.block(d - 1)

    def macro(self, d):
        inner = []
        for _ in range(self.r.choice([0, 1, 2, 4])):
            inner += self.r.choice([[self.ident()], ["=>"], ["#"], [";"], [a_lit(self.r, self.focus, False)], ["["] + [self.ident()] + ["]"]])
        a, b = self.r.choice([("(", ")"), ("[", "]"), ("{", "}")])
        return [self.ident(), "!", a] + inner + [b]

    def block(self, d):
        out = ["{"]
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            k = self.r.random()
            if k < .4:
                out += ["let", self.ident(), "="] + self.expr(d) + [";"]
            else:
                out += ["drop", "("] + self.expr(d) + [")", ";"]
        if self.r.random() < .6:
            out += [self.ident()] if self.r.random() < .3 else self.wrapped(d)
        return out + ["}"]

    def wrapped(self, d):
        return ["Ok", "("] + self.expr(d) + [")"]

    def postfix(self, d):
        out = self.atom(d)
        if out[0] in ("{", "if", "match", "loop", "unsafe") or (isinstance(out[0], str) and out[0] == "Struct"):
            out = ["("] + out + [")"]
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 4])):
            k = self.r.random()
            if k < .5:
                out = out + [".", "method", "("] + self.commas(d - 1) + [")"]
            elif k < .65:
                out = out + [".", "field"]
            elif k < .8:
                out = out + ["?"]
            elif k < .9:
                out = out + ["["] + self.expr(d - 1) + ["]"]
            else:
                out = out + [".", "await"]
        return out

    def expr(self, d):
        k = self.r.random()
        if d <= 0 or self.left <= 0:
            return self.atom(0)
        if k < .55:
            return self.postfix(d)
        if k < .68:
            return self.atom(d)
        if k < .78:
            return self.postfix(d - 1) + [self.r.choice(["+", "&&", "==", "<<", "|", "..=", ".."])] + self.postfix(d - 1)
        if k < .86:
            return [self.r.choice(["&", "!", "-", "*"])] + self.postfix(d - 1)
        if k < .94:
            return (["move"] if self.r.random() < .3 else []) + ["|", self.ident(), "|"] + (self.block(d - 1) if self.r.random() < .5 else self.postfix(d - 1))
        return self.postfix(d - 1) + ["as", "u8"]


def txt(t):
    return t if isinstance(t, str) else t.text


def glue(a, b):
    a, b = txt(a), txt(b)
    if a[-1] in "([{,;" or b[0] in ")]},;":
        return True
    if b[0] in "([" and (a[-1].isalnum() or a[-1] in ")]!"):
        return True
    if b[0] in ".?" and not a[-1].isdigit() and a[-1] not in ".":
        return True
    if a == "." and b[0].isalpha():
        return True
    if (a == "::" and b[0].isalpha()) or (b == "::" and a[-1].isalpha()):
        return True
    return a in ("&", "!", "-", "*") and (b[0].isalnum() or b[0] in "(\"")


def layout(rng, ts, lines, col0):
    """-> (text, cells): every token with its first line (0-based), first column (1-based) and end position"""
    out, line, col, cells = "", 0, col0, []
    p = .95 if lines == "many" else rng.choice([.05, .15, .4]) if lines else 0
    for i, t in enumerate(ts):
        if i:
            s = ""
            k = rng.random()
            if k < p:
                n = rng.choice([1, 1, 1, 2, 3])
                s = rng.choice(["", " ", "  // note\n" if n == 1 else ""])
                if not s.endswith("\n"):
                    s += "\n" * n
                s += rng.choice(["", " " * rng.randrange(16), "\t", "    ", "    ", "        "])
                if rng.random() < .05:
                    s += "/* c\n */ "
            elif k < p + .02 and lines:
                s = rng.choice([" /* blah */ ", "/**/", "\t", "   /* x */"])
            elif not (glue(ts[i - 1], t) and rng.random() < .6):
                s = rng.choice([" ", " ", " ", "  ", "     "])
            out += s
            for c in s:
                line, col = (line + 1, 1) if c == "\n" else (line, col + 1)
        x = txt(t)
        l0, c0 = line, col
        for c in x:
            line, col = (line + 1, 1) if c == "\n" else (line, col + 1)
        out += x
        cells.append((t, l0, c0, line, col))
    return out, cells


def lit_text(t, limit):
    """What is written for a token: `limit` is None when literals are left alone, else (n, kept at the start, kept at the end)."""
    if isinstance(t, str):
        return t
    if limit is None or not t.seen:
        return t.text
    return escape("\n".join(short(l, limit) for l in t.value.split("\n")))


def short(l, limit):
    n, a, b = limit
    return l if len(l) <= n else l[:a] + ".." + l[len(l) - b:]


def limit_of(n):
    if n is None:
        return (10, 4, 4)
    k = max(n, 2) - 2
    return (n, k // 2, k - k // 2)


def body(cells, limit):
    out, line, col = "    ", None, None
    for t, l0, c0, l1, c1 in cells:
        x = lit_text(t, limit)
        if line is not None:
            out += "\n" * (l0 - line) + " " * (c0 - 1) if l0 > line else " " * max(0, c0 - col)
        out += x
        line, col = l0 + x.count("\n"), c1
    return out


def blanked(text, col0):
    """The same for unshortened literals, straight from the source: comments blanked, first line indented by four."""
    out, i, n = "", 0, len(text)
    while i < n:
        if text.startswith("//", i):
            while i < n and text[i] != "\n":
                out, i = out + " ", i + 1
        elif text.startswith("/*", i):
            e = text.index("*/", i) + 2
            out, i = out + "".join("\n" if c == "\n" else " " for c in text[i:e]), e
        elif text[i] == '"' or (text[i] in "rb" and not (i and text[i - 1].isalnum()) and text[i + 1:].lstrip("#").startswith('"')):
            j = text.index('"', i)
            raw = "r" in text[i:j]
            h = text[i:j].count("#")
            e = j + 1
            if raw:
                e = text.index('"' + "#" * h, e) + 1 + h
            else:
                while text[e] != '"':
                    e += 2 if text[e] == "\\" else 1
                e += 1
            out, i = out + text[i:e].replace(" ", "\ue000").replace("\n", "\ue001").replace("\t", "\ue002"), e
        elif text.startswith("'c'", i):
            out, i = out + "'c'", i + 3
        else:
            out, i = out + (" " if text[i] == "\t" else text[i]), i + 1
    ls = [l.rstrip(" ") for l in out.split("\n")]
    return ("    " + "\n".join(ls)).replace("\ue000", " ").replace("\ue001", "\n").replace("\ue002", "\t")


def numbered(b, start):
    ls = lines(b)
    w = max(4, len(str(start + len(ls) - 1)))
    return "\n".join(str(start + i).rjust(w) + (">" if i == 0 else "|") + l for i, l in enumerate(ls)), w


def lines(s):
    v = s.split("\n")
    if v[-1] == "":
        v.pop()
    return [l[:-1] if l.endswith("\r") else l for l in v]


class Case:
    def __init__(self, prop, rng, lead=None, force=None):
        self.prop = prop
        self.kind = force or {"C14": rng.choice(["truncate", "truncate", "one_line", "excerpted"]), "C15": "excerpted", "C16": rng.choice(["pretty", "pretty", "pretty", "one_line"]),
                     "C19": rng.choice(["truncate", "pretty", "one_line", "excerpted", "excerpted"])}[prop]
        self.opts, self.err = dict(n=5, limit="default", num=False, pad=None), None
        self.long = prop == "C15" and lead is None and rng.random() < .08
        parts = self.options(rng)
        g = Gen(rng, prop == "C14" or (prop == "C19" and self.kind != "pretty"), rng.choice([3, 8, 20, 50]))
        ts = g.expr(rng.choice([1, 2, 3, 4]))
        if self.long:
            ts = ["f", "("] + [x for i in range((self.opts["n"] + rng.choice([0, 5, 60, 130])) // 2) for x in ("a", ",")] + [")"]
        if lead is not None:
            ts = ["f", "("] + [x for i in range(9) for x in ("a", ",")] + [")"]
        head = "".join(parts)
        self.lead = lead or 0
        pre = "\n" * self.lead + head + rng.choice(["", " ", "\n", "\n    "])
        col0 = len(pre) - (pre.rfind("\n") + 1) + 1
        self.off = pre.count("\n")
        text, self.cells = layout(rng, ts, "many" if self.long else True, col0)
        self.src = pre + text
        self.text = text
        self.case = vlib.Case(self.kind, self.src)
        b = body(self.cells, None)
        assert b == blanked(text, col0), (b, blanked(text, col0), text)

    def options(self, rng):
        r, o = rng.random, self.opts
        if self.prop == "C14":
            if r() < .3:
                if self.kind == "one_line" or r() < .5:
                    o["limit"] = None
                    return ["@truncate_str, "]
                return []
            n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 20, 40, 41, 50, 64, 99, 100, 127, 128, 255, 256])
            o["limit"] = n
            return ["@truncate_str = %d, " % n] + (["@excerpt_line = 30, "] if self.kind == "excerpted" and o.update(n=30) is None else [])
        if self.prop == "C15":
            out = []
            if r() < .9:
                o["n"] = rng.choice([98, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]) if self.long else rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
                out.append("@excerpt_line = %d, " % o["n"])
            if r() < .4:
                o["pad"] = rng.choice(["top", "bottom", "both"])
                out.append('@padding = "%s", ' % o["pad"])
            rng.shuffle(out)
            return out
        if self.prop == "C16":
            out = []
            if self.kind == "pretty":
                if r() < .6:
                    o["num"] = True
                    out.append("@show_line_num, ")
                if r() < .3:
                    o["pad"] = rng.choice(["top", "bottom", "both"])
                    out.append('@padding = "%s", ' % o["pad"])
            rng.shuffle(out)
            return out
        out = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
            k = rng.randrange(4)
            if k == 0:
                o["n"] = rng.choice([1, 2, 3, 4, 7, 0x10, 255, 256, 300, 65536, 10 ** 9]) if r() > .05 else 0
                out.append("@excerpt_line%s=%s%s" % (rng.choice(["", " "]), rng.choice(["", " "]), rng.choice([str(o["n"]), str(o["n"]), hex(o["n"]), "%d_usize" % o["n"], "%dusize" % o["n"], "0b" + bin(o["n"])[2:], "00%d" % o["n"], "%d_" % o["n"]])))
            elif k == 1:
                v = rng.choice([None, 0, 1, 2, 3, 6, 10, 12, 30, 255, 256, 257, 1000, 65536 + 2])
                o["limit"] = v
                out.append("@truncate_str" + ("" if v is None else " = " + rng.choice([str(v), str(v), hex(v), oct(v), "%d_usize" % v, "%d_" % v])))
            elif k == 2:
                o["num"] = True
                out.append("@show_line_num")
            else:
                v = rng.choice(["top", "bottom", "both", None])
                o["pad"] = v or "both"
                if v is None:
                    out.append("@padding")
                else:
                    out.append('@padding = "%s"' % v)
        if r() < .2:
            self.err = rng.choice(["@nope", "@excerpt_line", '@excerpt_line = "3"', "@excerpt_line = 1.5", '@truncate_str = "a"', "@padding = 1", '@padding = "left"', '@padding = ""',
                                   '@padding = "Top"', "@show_line_nums", "@truncate = 3", "@excerpt_lines = 3", "@truncate_str = true", "@padding = 'b'", "@excerpt_line = true", "@nope = 1", "@Padding"])
            out.insert(rng.randrange(len(out) + 1), self.err)
        # the last padding wins only as an option; excerpt keeps its own bottom padding anyway
        return [x + rng.choice([", ", ",", " ,\n", ",  "]) for x in out]

    def expected(self):
        o, k = self.opts, self.kind
        if self.err or (k == "excerpted" and o["n"] == 0):
            return "err", None
        lim = None if o["limit"] == "default" else limit_of(o["limit"])
        if k == "truncate":
            lim = lim or limit_of(None)
            if len(self.cells) == 1 and isinstance(self.cells[0][0], Lit):
                t = self.cells[0][0]
                return "str", "\n".join(short(l, lim) for l in t.value.split("\n"))
            return "tok", toks([lit_text(c[0], lim) for c in self.cells])
        if k == "one_line":
            return "str", " ".join(rust_trim(l) for l in lines(body(self.cells, lim)))
        start = self.case.line + self.off
        top, bottom = o["pad"] in ("top", "both"), o["pad"] in ("bottom", "both")
        if k == "excerpted":
            lim, num, bottom = lim or limit_of(None), True, True
        else:
            lim, num = None, o["num"]
        b = body(self.cells, lim)
        if num:
            b, w = numbered(b, start)
        if k == "excerpted":
            v = lines(b)
            n = o["n"]
            if n == 1:
                b = v[-1]
            elif len(v) > max(n, 2):
                b = "\n".join([v[0], "..."] + v[len(v) - (n - 1):])
        if num:
            b = (" " * w + "|\n" if top else "") + b + ("\n" + " " * w + "|" if bottom else "")
        else:
            b = ("\n" if top else "") + b + ("\n" if bottom else "")
        return "str", b

    def check(self):
        st, *pl = self.case.out
        if st == "badcase":
            return None
        want, text = self.expected()
        self.want = text if want != "err" else "<error>"
        if st == "crash":
            return "the compiler process died in the macro: " + pl[0]
        if st == "panic":
            return "the macro panicked: " + "".join(pl)
        if want == "err" or st == "err":
            return None if want == st else ("accepted, but the options are wrong" if want == "err" else "rejected: " + pl[0])
        got = pl[0]
        if st == "tok":
            got = " ".join(got.split())
            text = " ".join(text.split())
        self.got = got
        if (st, got) != (want, text):
            return "the result differs"

    def size(self):
        return len(self.src)

    def describe(self):
        d = {"macro": self.kind, "input": self.src.lstrip("\n") if self.lead else self.src, "first line": self.case.line + self.off, "expected": getattr(self, "want", None)}
        if hasattr(self, "got"):
            d["got"] = self.got
        return d


def rust_trim(l):
    return l.strip(" \t\n\r\x0b\x0c\u0085\u00a0\u2028\u2029\u3000")


def toks(ts):
    out = []
    for t in ts:
        if t[0].isalnum() or t[0] in "_\"'" or t[0] not in "+&=<|.!-*:?()[]{},;>#":
            out.append(t)
        else:
            out += list(t)
    return " ".join(out)


class ExcerptEngine:
    rule = RULE

    def __init__(self, prop):
        self.prop = prop

    def run(self, seed, effort, deadline):
        so, log = vlib.build_probe()
        if so is None:
            raise vlib.CheckError("the probe does not build: " + log[-1500:])
        fails, stats, seen, k = [], dict(cases=0, rejected=0), set(), 0
        while k < 4 * effort and not fails and (k == 0 or time.time() < deadline):
            rng = random.Random("%s/%s/%s" % (self.prop, seed, k))
            objs = []
            if self.prop in ("C16", "C15"):     # a first line just before 10000
                objs.append(Case(self.prop, rng, lead=9995 - rng.randrange(6), force="pretty" if self.prop == "C16" else None))
            for _ in range(600):
                objs.append(Case(self.prop, rng))
            vlib.run_probe(so, [o.case for o in objs])
            for o in objs:
                stats["cases"] += 1
                stats["rejected"] += o.case.out[0] == "badcase" or (o.case.out[0] == "err" and o.expected()[0] != "err")
                why = o.check()
                if why:
                    fails.append((o, why))
                seen.add(o.case.out[-1])
            stats["samples"] = [objs[-1].describe(), objs[-2].describe()]
            k += 1
        stats["distinct_outputs"] = len(seen)
        stats["run"] = stats["cases"] - stats["rejected"]
        return fails, stats


if __name__ == "__main__":
    import sys
    e = ExcerptEngine(sys.argv[1])
    f, st = e.run(int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[2]), time.time() + 300)
    print({k: v for k, v in st.items() if k != "samples"}, len(f))
    for o, why in sorted(f, key=lambda x: x[0].size())[:3]:
        print(why, o.case.out[0])
        for a, b in o.describe().items():
            print("--", a, repr(b) if a == "first line" else "\n" + str(b))
