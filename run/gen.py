"""Random documents.  A generator yields lexemes, so that a document can be
damaged at lexeme boundaries afterwards."""
import random

WORDS = ["a", "b", "x", "y", "ab", "xyz", "1", "12", "3.4", "n+1", "a-b", "é", "中文", "ñu", "x=1", "k", "Q", "|", "<", "!", "?", ":", "z9"]
PUNCT = [",", "/", "*", "@", "\"", ";", "#", "~"]
SPACES = [" ", "  ", "\t", " "]
LINES = ["\n", "\n\n", "\r\n"]
COMMENTS = ["%\n", "% c\n", "%x%y\n", "%{\n", "%\\end{m}\n", "% $\n  "]

# names by shape, for the two specifications
NAMES = {
    "small": {
        "sym": ["s", "sa", "z", "z*", "langle", ",", "%", "&", "{"], "n1": ["o", "o*", "h", "r"], "n2": ["f", "hh", "r"], "n3": ["t"],
        "greedy": ["g", "gh"], "left": ["l", "lh"], "infix": ["i", "ih"],
        "glob": [("q", "{,b}t"), ("qb", "{,b}"), ("qq", "{,b}tt"), ("qp", "b*p"), ("qs", "*"), ("qc", "[bp]t{b,pt}t"), ("qn", "t[!b]")],
        "matrix": ["m", "mb"], "matrix1": ["a"], "cases": ["c"], "math": ["al", "al*"], "math1": ["ad"], "none": ["n", "nn"],
        "fig": ["fig"], "tab": ["tab"], "it": ["it"], "en": ["en"], "envglob": [("eg", "{,b}t")], "envrange": ["er"],
        "style": ["textbf", "textit"], "delim": ["langle", "rangle", "|", "{", "}"], "unknown": ["zzz", "foo", "O"],
        "rules": ["hline", "toprule", "midrule", "bottomrule"],
    },
    "default": {
        "sym": ["alpha", "beta", "infty", "cdot", "ldots", "quad", ",", ";", "%", "&", "{", "}", "sin", "sum", "int", "lim", "to", "pm", "#", "_", "thinspace", "!", "|", "in"],
        "n1": ["hat", "bar", "mathbb", "mathbf", "emph", "text", "mathrm", "boxed", "vec", "overline", "section", "operatorname", "cite", "footnote", "mathcal"],
        "n2": ["frac", "binom", "overset", "underset", "stackrel", "tfrac"], "n3": [],
        "greedy": ["displaystyle", "bf", "textstyle", "rm", "it"], "left": ["limits", "nolimits"], "infix": ["over", "choose", "atop", "brack", "brace"],
        "glob": [("sqrt", "{,b}t")],
        "matrix": ["matrix", "pmatrix", "bmatrix", "vmatrix", "smallmatrix", "Bmatrix", "Vmatrix"], "matrix1": ["array", "subarray"],
        "cases": ["cases", "rcases"], "math": ["align", "align*", "aligned", "equation", "gather*", "split"], "math1": ["alignedat"],
        "none": ["quote", "abstract"], "fig": ["figure", "table"], "tab": ["tabular"], "it": ["itemize"], "en": ["enumerate"],
        "envglob": [], "envrange": [], "style": ["textbf", "textit", "emph"], "delim": ["langle", "rangle", "|", "{", "}", "lfloor", "lbrace"],
        "unknown": ["zzz", "unknowncmd"], "rules": ["hline", "toprule", "midrule", "bottomrule"],
    },
}

ALL = ("words", "space", "line", "comment", "punct", "escape", "group", "formula", "script", "prime", "cmd", "glob",
       "greedy", "left", "infix", "lr", "menv", "tenv", "list", "table", "figure", "label", "image", "color", "style",
       "brackets", "block", "ifs", "typst")


class Gen:
    def __init__(self, seed, sp="small", feats=ALL, width=5, depth=4, words=None):
        self.r = random.Random(seed)
        self.sp, self.N = sp, NAMES[sp]
        self.f = set(feats)
        self.width, self.depth = width, depth
        self.words = words or WORDS
        self.macros, self.envs = [], []
        self.labels = 0

    # ---- helpers ----
    def c(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def word(self):
        return [self.c(self.words)]

    def ws(self, p=0.5):
        """white space that may stand between the parts of a construct"""
        out = []
        if "space" in self.f and self.p(p):
            out.append(self.c(SPACES))
        if "line" in self.f and self.p(p * 0.3):
            out.append(self.c(LINES))
            if self.p(0.5):
                out.append(self.c(SPACES))
        if "comment" in self.f and self.p(p * 0.2):
            out.append(self.c(COMMENTS))
        return out

    def group(self, body):
        return ["{"] + body + ["}"]

    def cs(self, name):
        """a command whose name cannot run into what follows"""
        if name and (name[-1].isalpha() or name[-1] == "@"):
            return ["\\" + name]
        return ["\\" + name]

    def sep(self, out):
        """white space where a letter could follow a command"""
        out.append(" ")
        return out

    # ---- documents ----
    def seq(self, d, math, n=None):
        n = self.r.randint(0, self.width) if n is None else n
        out = []
        for _ in range(n):
            out += self.item(d, math)
            if "space" in self.f and self.p(0.35):
                out.append(self.c(SPACES))
            elif "line" in self.f and self.p(0.12):
                out.append(self.c(LINES))
                if self.p(0.4):
                    out.append(self.c(SPACES))
            elif "comment" in self.f and self.p(0.06):
                out.append(self.c(COMMENTS))
        return out

    def item(self, d, math):
        f, N = self.f, self.N
        opts = [("words", 6)]
        if "punct" in f: opts.append(("punct", 1.2))
        if "cmd" in f: opts.append(("cmd", 2.5))
        if "prime" in f: opts.append(("prime", 0.7))
        if "brackets" in f: opts.append(("brackets", 0.7))
        if "macro" in f and (self.macros or self.envs) and d > -2: opts.append(("use", 3 if d > 0 else 1))
        if d > 0:
            for k, w in (("group", 1.2), ("script", 1.8), ("glob", 1), ("greedy", 0.4), ("left", 0.5), ("infix", 0.4),
                         ("lr", 0.8), ("menv", 1.4), ("style", 0.8), ("color", 0.6), ("ifs", 0.6), ("block", 0.3), ("typst", 0.3)):
                if k in f:
                    opts.append((k, w))
            if not math:
                for k, w in (("formula", 2.2), ("tenv", 0.6), ("list", 0.9), ("table", 0.8), ("figure", 0.6), ("label", 0.6), ("image", 0.6)):
                    if k in f:
                        opts.append((k, w))
            elif "label" in f:
                opts.append(("label", 0.2))
            if "macro" in f:
                opts.append(("def", 1.5))
        k = self.r.choices([o[0] for o in opts], [o[1] for o in opts])[0]
        return getattr(self, "g_" + k)(d - 1, math)

    def g_words(self, d, m):
        return self.word()

    def g_punct(self, d, m):
        return [self.c(PUNCT)]

    def g_prime(self, d, m):
        return self.word() + ["'"] * self.r.randint(1, 2)

    def g_brackets(self, d, m):
        k = self.c(["()", "[]", "()", "[)"])
        return [k[0]] + self.seq(max(d, 0), m, self.r.randint(0, 2)) + [k[1]]

    def arg(self, d, m):
        """one mandatory argument"""
        r = self.r.random()
        if r < 0.7 or d <= 0:
            return self.ws(0.3) + self.group(self.seq(d, m, self.r.randint(0, 2)))
        if r < 0.85:
            return [" "] + [self.c(["x", "1", "xy", "é"])]
        if r < 0.95:
            return self.ws(0.3) + self.cs(self.c([s for s in self.N["sym"] if s[0].isalpha()])) + [" "]
        return self.ws(0.3) + [self.c(["'", "@", "*", "#", "~"])]

    def opt(self, d, m):
        body = [w for w in self.seq(d, m, self.r.randint(0, 2)) if w not in ("]",)]
        return self.ws(0.2) + ["["] + body + ["]"]

    def g_cmd(self, d, m):
        N = self.N
        k = self.c(["sym", "sym", "n1", "n2", "n3", "unk"])
        if k == "unk":
            if "unknown" in self.f and self.p(0.5):
                return self.cs(self.c(N["unknown"])) + [" "]
            k = "sym"
        if k == "sym":
            n = self.c(N["sym"])
            return self.cs(n) + ([" "] if n[-1].isalpha() and self.p(0.8) else [])
        names = N[k]
        if not names:
            return self.word()
        cnt = {"n1": 1, "n2": 2, "n3": 3}[k]
        n = self.c(names)
        out = self.cs(n)
        for _ in range(cnt if self.p(0.93) else self.r.randint(0, cnt + 1)):
            out += self.arg(d, m)
        return out

    def g_style(self, d, m):
        return self.cs(self.c(self.N["style"])) + self.group(self.seq(d, m, 2))

    def pargs(self, pat, d, m):
        """arguments for the patterns of NAMES"""
        out = []
        if pat in ("{,b}t", "{,b}", "{,b}tt"):
            if self.p(0.5):
                out += self.opt(d, m)
            for _ in range(pat.count("t")):
                out += self.arg(d, m)
        else:
            for _ in range(self.r.randint(0, 4)):
                k = self.c("tbp")
                out += {"t": self.arg, "b": self.opt, "p": lambda d, m: ["("] + self.seq(d, m, 1) + [")"]}[k](d, m)
        return out

    def g_glob(self, d, m):
        n, pat = self.c(self.N["glob"])
        return self.cs(n) + self.pargs(pat, d, m)

    def g_greedy(self, d, m):
        body = self.cs(self.c(self.N["greedy"])) + self.ws(0.8) + self.seq(d, m)
        return self.group(body) if self.p(0.7) else body

    def g_left(self, d, m):
        base = self.c([self.word(), self.cs(self.c(["s", "sa"] if self.sp == "small" else ["sum", "lim"])), self.group(self.seq(d, m, 1)), []])
        out = base + self.ws(0.2) + self.cs(self.c(self.N["left"]))
        if self.p(0.6) and "script" in self.f:
            out += ["_"] + self.sarg(d, m)
        else:
            out += [" "]
        return out

    def g_infix(self, d, m):
        b = self.seq(d, m, 2) + self.cs(self.c(self.N["infix"])) + [" "] + self.seq(d, m, 2)
        return self.group(b) if self.p(0.85) else b

    def sarg(self, d, m):
        r = self.r.random()
        if r < 0.45:
            return [self.c(["1", "n", "ab", "x2"])]
        if r < 0.8:
            return self.group(self.seq(d, m, 2))
        if r < 0.9:
            return self.cs(self.c([s for s in self.N["sym"] if s[0].isalpha()])) + [" "]
        if r < 0.95:
            return self.cs(self.c(self.N["n1"])) + self.arg(d, m)
        return [" "] + self.word()

    def g_script(self, d, m):
        base = self.c([self.word(), self.word(), self.group(self.seq(d, m, 1)), [], ["(", "a", ")"],
                       self.cs(self.c([s for s in self.N["sym"] if s[0].isalpha()]))])
        out = list(base)
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            if self.p(0.15):
                out += [" "]
            if self.p(0.15):
                out += ["'"]
            out += [self.c(["_", "^"])] + self.sarg(d, m)
        return out

    def g_group(self, d, m):
        return self.group(self.seq(d, m, self.r.randint(0, 3)))

    def g_formula(self, d, m):
        o, c = self.c([("$", "$"), ("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")])
        body = self.seq(d, True)
        if o == "$" and not body:
            body = ["x"]
        return [o] + body + [c]

    def g_lr(self, d, m):
        def dl(xs):
            r = self.r.random()
            if r < 0.6: return [self.c(xs)]
            if r < 0.7: return ["."]
            if r < 0.8: return [" ", self.c(xs)]
            return self.cs(self.c(self.N["delim"])) + [" "]
        out = ["\\left"] + dl(["(", "[", "|", "/"]) + self.seq(d, m) + ["\\right"] + dl([")", "]", "|", ")"])
        return out

    def rows(self, d, m, amp="&", extra=None):
        out = []
        for i in range(self.r.randint(0, 3)):
            if i:
                out += ["\\\\"] + self.ws(0.5)
            for j in range(self.r.randint(1, 3)):
                if j:
                    out += [amp]
                if extra and self.p(0.3):
                    out += extra()
                out += self.seq(d, m, self.r.randint(0, 2))
            if self.p(0.15):
                out += ["\\\\"]
        return out

    def env(self, n, args, body):
        return ["\\begin{" + n + "}"] + args + body + ["\\end{" + n + "}"]

    def g_menv(self, d, m):
        N = self.N
        k = self.c(["matrix", "matrix", "matrix1", "cases", "math", "math", "math1", "envglob"])
        if k == "envglob":
            if not N["envglob"]:
                k = "math"
            else:
                n, pat = self.c(N["envglob"])
                return self.env(n, self.pargs(pat, d, True), self.rows(d, True))
        n = self.c(N[k])
        args = self.arg(d, True) if k in ("matrix1", "math1") and self.p(0.9) else []
        if k == "matrix1" and args and self.sp == "default":
            args = self.group([self.c(["cc", "lcr", "l|r", "c"])])
        body = self.ws(0.5) + self.rows(d, True) + self.ws(0.5)
        if "label" in self.f and self.p(0.1):
            body += self.g_label(d, True)
        return self.env(n, args, body)

    def g_tenv(self, d, m):
        n = self.c(self.N["none"] + self.N["envrange"])
        args = []
        if n in self.N["envrange"]:
            for _ in range(self.r.randint(0, 3)):
                args += self.arg(d, m)
        return self.env(n, args, self.seq(d, m))

    def g_list(self, d, m):
        body = self.ws(0.8)
        for _ in range(self.r.randint(0, 3)):
            body += ["\\item"] + self.ws(1.0) + self.seq(d, m, self.r.randint(0, 3)) + self.ws(0.8)
        return self.env(self.c(self.N["it"] + self.N["en"]), [], body)

    def g_table(self, d, m):
        cols = "".join(self.c(["l", "c", "r", "|", "c", " "]) for _ in range(self.r.randint(0, 5)))
        if "unknown" in self.f and self.p(0.05):
            cols += "x"
        cols = cols.strip()

        def rule():
            return self.cs(self.c(self.N["rules"])) + self.c([[], [" "], ["\n"]])
        body = self.ws(0.8)
        if self.p(0.4):
            body += rule()
        for i in range(self.r.randint(0, 3)):
            for j in range(self.r.randint(1, 3)):
                if j:
                    body += ["&"] + self.ws(0.3)
                body += self.seq(d, m, self.r.randint(0, 2))
            if self.p(0.85):
                body += ["\\\\"] + self.ws(0.8)
            if self.p(0.35):
                body += rule()
            if self.p(0.1):
                body += rule()
        return self.env(self.c(self.N["tab"]), ["{" + "".join(cols.split()) + "}"] if self.p(0.97) else [], body)

    def g_figure(self, d, m):
        body = self.ws(0.8)
        for _ in range(self.r.randint(0, 4)):
            body += self.c([lambda: ["\\centering"] + [" "], lambda: ["\\caption"] + self.group(self.seq(d, m, 2)),
                            lambda: self.g_image(d, m), lambda: self.g_label(d, m), lambda: self.seq(d, m, 1)])()
            body += self.ws(0.6)
        return self.env(self.c(self.N["fig"]), ["[", self.c(["h", "ht", "!tb"]), "]"] if self.p(0.4) else [], body)

    def g_label(self, d, m):
        self.labels += 1
        return ["\\label{" + self.c(["fig:", "eq:", "tab:", "", " "]) + self.c(["a", "b1", "x y"]) + str(self.labels) + "}"]

    def g_image(self, d, m):
        o = []
        if self.p(0.6):
            o = ["[" + ",".join(self.c(["width=0.5\\textwidth", "width = 3cm", "height=\\textheight", "scale=2", "angle=45", " height=2em ", "width", "a=b=c", ""])
                                for _ in range(self.r.randint(1, 3))) + "]"]
        if "\\textwidth" in "".join(o) and False:
            pass
        return ["\\includegraphics"] + o + ["{" + self.c(["a.png", "img/b-1.svg", " x ", "f"]) + "}"]

    def g_color(self, d, m):
        k = self.c(["color", "textcolor", "colorbox"])
        mod = ["[", self.c(["rgb", "HTML", "x"]), "]"] if self.p(0.4) else []
        col = self.group([self.c(["red", "1,0,0", "a!b"])])
        if k == "color":
            b = ["\\color"] + mod + col + self.ws(0.7) + self.seq(d, m, 2)
            return self.group(b) if self.p(0.8) else b
        return ["\\" + k] + mod + col + self.group(self.seq(d, m, 2))

    def g_ifs(self, d, m):
        k = self.c(["\\iftrue", "\\iffalse", "\\iftrue", "\\iffalse"])
        return [k + " "] + self.seq(d, m, 2) + (["\\else "] + self.seq(d, m, 2) if self.p(0.6) else []) + ["\\fi "]

    def g_block(self, d, m):
        return ["\\iffalse "] + self.seq(d, m, 2) + ["\\fi "]

    def g_typst(self, d, m):
        return ["\\iftypst"] + self.word() + [" "] + self.word() + (["\\else "] + self.seq(d, m, 2) if self.p(0.5) else []) + ["\\fi "]

    # ---- macros (never recursive: definitions only use earlier ones) ----
    def def_body(self, d, m, n, math=True):
        out = []
        for _ in range(self.r.randint(0, 4)):
            r = self.r.random()
            if n and r < 0.55:
                out += ["#" + str(self.r.randint(1, n)) + self.c(["", "", "2", "a"])]
            elif r < 0.65 and self.macros:
                out += self.use(max(d - 1, 0), m, inner=n)
            elif r < 0.75:
                out += self.group(["#" + str(self.r.randint(1, n))] if n else self.word())
            elif r < 0.8:
                out += ["#" + self.c(["9", "0", "x"])] if "oddhash" in self.f else self.word()
            else:
                out += self.item(0, m) if self.p(0.5) else self.word()
            if self.p(0.25):
                out += [" "]
        return out

    def g_def(self, d, m):
        name = "U" + self.c("abcdefgh")
        r = self.r.random()
        if r < 0.75 or "menvs" not in self.f:
            how = self.c(["newcommand", "newcommand", "renewcommand", "providecommand", "DeclareRobustCommand"]) + self.c(["", "", "*"])
            if self.p(0.06):
                name = self.c(["zzz", "s", "frac"])
            n = self.c([0, 1, 1, 2, 2, 3, 9]) if self.p(0.75) else 0
            opt = n > 0 and self.p(0.3)
            lower = [x for x in self.macros if x[0] < name]
            saved, self.macros = self.macros, lower
            body = self.def_body(d, m, n)
            dflt = self.seq(0, m, self.r.randint(0, 1)) if opt else None
            self.macros = saved
            W = lambda: self.ws(0.12)
            out = ["\\" + how] + W() + ["{"] + W() + ["\\" + name] + W() + ["}"] + W()
            if n or self.p(0.1):
                out += ["["] + [str(n)] + ["]"] + W()
                if opt:
                    out += ["["] + [x for x in dflt if x != "]"] + ["]"] + W()
            out += self.group(body)
            self.macros = [x for x in self.macros if x[0] != name] + [(name, n, opt)]
            return out
        name = "e" + self.c("abcd")
        n = self.c([0, 0, 1, 2])
        opt = n > 0 and self.p(0.3)
        lower = [x for x in self.envs if x[0] < name]
        saved, self.envs = self.envs, lower
        savedm = self.macros
        b, e = self.def_body(d, m, n), self.def_body(d, m, n)
        self.envs, self.macros = saved, savedm
        out = ["\\" + self.c(["newenvironment", "newenvironment*", "renewenvironment"]), "{", name, "}"]
        if n:
            out += ["[", str(n), "]"]
            if opt:
                out += ["["] + self.word() + ["]"]
        out += self.ws(0.1) + self.group(b) + self.ws(0.1) + self.group(e)
        self.envs = [x for x in self.envs if x[0] != name] + [(name, n, opt)]
        return out

    def marg(self, d, m, inner=0):
        r = self.r.random()
        if r < 0.6:
            b = self.seq(d, m, self.r.randint(0, 2))
            if inner and self.p(0.5):
                b = ["#" + str(self.r.randint(1, inner))]
            return self.ws(0.15) + self.group(b)
        if r < 0.8:
            return [" ", self.c(["x", "1", "x y", "ab"])]
        if r < 0.95:
            return self.ws(0.15) + [self.c(["+", "-", ";", "@", "*", ","])]
        return self.cs(self.c([s for s in self.N["sym"] if s[0].isalpha()])) + [" "]

    def use(self, d, m, inner=0):
        if self.envs and d > 0 and self.p(0.3) and "menvs" in self.f:
            n, k, opt = self.c(self.envs)
            out = ["\\begin{" + n + "}"]
            tail = self.seq(d, m, 2) + ["\\end{" + n + "}"]
        elif self.macros:
            n, k, opt = self.c(self.macros)
            out = ["\\" + n]
            tail = []
        else:
            return self.word()
        rest = k
        if opt:
            rest -= 1
            if self.p(0.5):
                out += self.ws(0.15) + ["["] + [x for x in self.seq(0, m, 1) if x != "]"] + ["]"]
        for _ in range(rest if self.p(0.97) else 0):
            out += self.marg(d, m, inner)
        if k == 0 and not tail:
            out += [self.c([" ", "{}", ""])] if self.p(0.9) else []
        return out + tail

    def g_use(self, d, m):
        return self.use(d, m)

    # ---- whole documents ----
    def lexemes(self, math=False, n=None):
        self.macros, self.envs, self.labels = [], [], 0
        return self.seq(self.depth, math, n if n is not None else self.r.randint(1, self.width + 2))

    def doc(self, math=False, damage=0.0, n=None, limit=400):
        while True:
            xs = self.lexemes(math, n)
            if len(xs) <= limit:
                break
        if self.p(damage):
            xs = self.damage(xs)
        return join(xs)

    def damage(self, xs):
        xs = list(xs)
        junk = ["{", "}", "$", "$$", "\\(", "\\)", "\\[", "\\]", "\\begin{m}", "\\end{m}", "\\begin", "\\end", "\\left", "\\right",
                "&", "\\\\", "_", "^", "'", "[", "]", "(", ")", "%", "\\", "\\fi", "\\else", "\\iffalse", "\\item", "#", "\\begin{zz}",
                "\\left(", "\\right)", "~", "\n", "\\i", "\\l", "\\g"]
        if "macro" not in self.f:
            junk += ["\\iftrue "]
        for _ in range(self.r.randint(1, 3)):
            k = self.r.random()
            i = self.r.randrange(len(xs) + 1) if xs else 0
            if k < 0.45:
                xs.insert(i, self.c(junk))
            elif k < 0.8 and xs:
                del xs[min(i, len(xs) - 1)]
            elif k < 0.9 and xs:
                j = self.r.randrange(len(xs))
                i = min(i, len(xs) - 1)
                xs[i], xs[j] = xs[j], xs[i]
            else:
                xs = xs[:i]
        return xs


def join(xs):
    """Lexemes to text; a command name never runs into a following letter."""
    out = []
    for x in xs:
        if out and out[-1] and x and x[0].isascii() and (x[0].isalpha() or x[0] == "@"):
            prev = out[-1]
            if prev[0] == "\\" and len(prev) > 1 and (prev[-1].isascii() and prev[-1].isalpha()):
                out.append(" ")
        if out and out[-1].startswith("%") and not out[-1].endswith(("\n", " ")):
            out.append("\n")
        out.append(x)
    return "".join(out)


def docs(n, seed, sp="small", feats=ALL, width=5, depth=3, damage=0.15, math=0.3, limit=400, words=None):
    g = Gen(seed, sp, feats, width, depth, words)
    res = []
    while len(res) < n:
        res.append(g.doc(math=g.p(math), damage=damage, limit=limit))
    return res
