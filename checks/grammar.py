"""Token table, precedence and productions, extracted from the source by the analyser, and what is documented about them."""
import re
from . import lalr
from .core import *  # noqa: F401,F403
from .core import sym, const, tm, NS, Missing

ENTRY = r"(-?\d+--?\d+(\*\d+)?|-?\d+(\*\d+)?)"
DICE = r"\d*d(\d+|%%|F|\[(\s*%s\s*,\s*)*\s*%s\s*(,?)\s*\])" % (ENTRY, ENTRY)
# kind, regular expression; at each position the first that matches wins
TABLE = [
    ("(", r"\("), (")", r"\)"), (",", r"\,"), ("!", r"!(?!=)"), ("dropkeep", DICE + r"[kd]\d+"), ("dice", DICE),
    ("compare", r"==|!=|<=|<|>=|>|\bAND\b|\bOR\b"), ("integer", r"-?\d+"), ("truth", r"\bTrue\b|\bFalse\b"),
    ("+", r"\+"), ("-", r"\-"), ("*", r"\*"), ("//", r"//"), ("minmax", r"\bMAX\b|\bMIN\b"), ("ABS", r"\bABS\b"),
    ("=", r"=(?!=)(?<!==)"), ("VAR", r"\bVAR\b"), ("name", r"\b[a-z_]+\b"),
]
IGNORE = [(r"\s+", 0)]
# representative spellings of every kind
LEXEMES = {
    "(": ["("], ")": [")"], ",": [","], "!": ["!"], "dropkeep": ["2d6k1", "d[1-2,]d1", "dFk0"],
    "dice": ["2d6", "d%", "dF", "d[1]", "3d[-1--2*3, 4,]"], "compare": ["==", "!=", "<=", "<", ">=", ">", "AND", "OR"],
    "integer": ["5", "-5", "0", "12"], "truth": ["True", "False"], "+": ["+"], "-": ["-"], "*": ["*"], "//": ["//"],
    "minmax": ["MAX", "MIN"], "ABS": ["ABS"], "=": ["="], "VAR": ["VAR"], "name": ["a", "x_y", "_", "d", "k", "dk", "stdout", "abs"],
}
PRECEDENCE = [("nonassoc", ["VAR"]), ("left", ["="]), ("left", ["("]), ("left", ["!"]), ("left", ["+", "-"]), ("left", ["//", "*"]), ("left", ["compare"])]
E = "e"
# right hand sides, in terms of kinds
SHAPES = [("(", E, ")"), ("!", E), ("dropkeep",), ("dice",), ("integer",), ("truth",), (E, "+", E), (E, "-", E), (E, "*", E), (E, "//", E),
          (E, "compare", E), ("minmax", "(", E, ",", E, ")"), ("ABS", "(", E, ")"), ("VAR", "name", "=", E), ("name",)]
LEVEL = {"+": 1, "-": 1, "*": 2, "//": 2, "compare": 3}


def lit(t):
    return t.args[1] if t.op == "c" else None


def literal(t):
    """python value of a literal term"""
    if t.op == "c":
        return t.args[1]
    if t.op == "tup":
        return tuple(literal(x) for x in t.args)
    return t


def tokens(chk, S):
    """[(name, regex)] in lexer order; entries that are not literals are None"""
    ls = S.freeze(S.attr(NS + "python_dice_syntax_objects", "LEXER_SYNTAX"))
    if ls.op != "tup":
        raise Missing("LEXER_SYNTAX is not a literal list")
    out = []
    for c in ls.args:
        n = chk.run(S, lambda: S.freeze(S.i.call(S.i.getattr(c, "get_token_name"), []))).value
        r = chk.run(S, lambda: S.freeze(S.i.call(S.i.getattr(c, "get_token_regex"), []))).value
        out.append((lit(n), lit(r)))
    return out


class Lexer:
    """rply: at each position first the ignored rules, then the first rule in order that matches there"""

    def __init__(self, rules, ignore):
        self.rules = [(n, re.compile(r, f)) for n, r, f in rules]
        self.ignore = [re.compile(r, f) for r, f in ignore]

    def __call__(self, text):
        pos, out = 0, []
        steps = 0
        while pos < len(text):
            steps += 1
            if steps > 4 * len(text) + 8:
                return None
            for r in self.ignore:
                m = r.match(text, pos)
                if m:
                    break
            else:
                m = None
            if m:
                if m.end() == pos:
                    return None  # rply never ends
                pos = m.end()
                continue
            for n, r in self.rules:
                m = r.match(text, pos)
                if m:
                    out.append((n, m.group()))
                    break
            else:
                return None
            if m.end() == pos:
                return None
            pos = m.end()
        return tuple(out)


def lex(table, text):
    return Lexer([(n, r, 0) for n, r in table], IGNORE)(text)


# ---------------------------------------------------------------- parsing
class Table:
    """an LALR table over named tokens; sentences are given as (name, leaf) pairs"""

    def __init__(self, tokens, precedence, productions):
        t = lalr.table(tokens, precedence, productions)
        self.action, self.goto, self.default, self.prods = t.lr_action, t.lr_goto, t.default_reductions, t.grammar.productions

    def start(self):
        return ((0,), ())

    def reduce(self, cfg, t):
        states, nodes = cfg
        p = self.prods[-t]
        n = len(p.prod)
        kids = nodes[len(nodes) - n:]
        states, nodes = states[:len(states) - n], nodes[:len(nodes) - n]
        node = kids[0] if n == 1 and isinstance(kids[0], tuple) and kids[0][0] == E else (E, tuple(kids))
        return states + (self.goto[states[-1]][p.name],), nodes + (node,)

    def feed(self, cfg, name, leaf):
        """configuration after the token, None on a syntax error; feeding $end gives the tree"""
        if cfg is None:
            return None
        while True:
            s = cfg[0][-1]
            if self.default[s]:
                cfg = self.reduce(cfg, self.default[s])
                continue
            t = self.action[s].get(name)
            if t is None:
                return None
            if t == 0:
                return ("tree", cfg[1][-1])
            if t > 0:
                return cfg[0] + (t,), cfg[1] + (leaf,)
            cfg = self.reduce(cfg, t)

    def parse(self, sentence):
        cfg = self.start()
        for name, leaf in sentence:
            cfg = self.feed(cfg, name, leaf)
            if cfg is None:
                return None
        cfg = self.feed(cfg, "$end", "$end")
        return cfg and cfg[1]


def reference():
    return Table([k for k, _ in TABLE], PRECEDENCE, [("e", list(s), s, None) for s in SHAPES])


def descend(kinds):
    """the documented grouping, by recursive descent over kinds: the tree, or None"""
    toks = list(kinds) + ["$end"]
    pos = [0]

    class Bad(Exception):
        pass

    def eat(k):
        if toks[pos[0]] != k:
            raise Bad
        pos[0] += 1
        return k

    def primary():
        k = toks[pos[0]]
        if k in ("dice", "dropkeep", "integer", "truth", "name"):
            return (E, (eat(k),))
        if k == "(":
            return (E, (eat("("), expr(0), eat(")")))
        if k == "!":
            return (E, (eat("!"), expr(0)))
        if k == "ABS":
            return (E, (eat("ABS"), eat("("), expr(0), eat(")")))
        if k == "minmax":
            return (E, (eat(k), eat("("), expr(0), eat(","), expr(0), eat(")")))
        if k == "VAR":
            return (E, (eat(k), eat("name"), eat("="), expr(0)))
        raise Bad

    def expr(low):
        left = primary()
        while LEVEL.get(toks[pos[0]], 0) > low:
            k = toks[pos[0]]
            pos[0] += 1
            left = (E, (left, k, expr(LEVEL[k])))
        return left

    try:
        t = expr(0)
        eat("$end")
        return t
    except Bad:
        return None


class Extracted:
    """the lexer rules, the grammar and the production functions a new PythonDiceParser hands to rply"""

    def __init__(self, chk, S):
        def f():
            S.new("PythonDiceParser")
            return S.freeze(S.attr("rply", "LOG"))
        r = chk.run(S, f, keep=True)
        if r.value is None or r.value.op != "tup":
            raise Missing("the grammar could not be extracted: %s" % "; ".join(r.notes[:2]))
        self.lexers, self.grammars = [], []
        for e in r.value.args:
            if e.op == "tup" and e.args and lit(e.args[0]) == "lexer":
                self.lexers.append((literal(e.args[1]), literal(e.args[2])))
            if e.op == "tup" and e.args and lit(e.args[0]) == "grammar":
                self.grammars.append((literal(e.args[1]), literal(e.args[2]), e.args[3].args if e.args[3].op == "tup" else None, e.args[4]))
        if len(self.lexers) != 1 or len(self.grammars) != 1:
            raise Missing("%d lexers and %d grammars are built" % (len(self.lexers), len(self.grammars)))
        self.rules, self.ignore = self.lexers[0]
        self.tokens, self.precedence, prods, self.error = self.grammars[0]
        for x in (self.rules, self.ignore, self.tokens, self.precedence):
            if not plain(x):
                raise Missing("the token table or the precedence table is not literal")
        self.productions = []
        for p in prods:
            rule, fn, prec = p.args
            parts = literal(rule).split()
            for alt in " ".join(parts[2:]).split("|"):
                self.productions.append((parts[0], alt.split(), fn, literal(prec)))

    def lexer(self):
        return Lexer(self.rules, self.ignore)

    def table(self):
        return Table(list(self.tokens), [(a, list(t)) for a, t in self.precedence], [(n, s, k, p) for k, (n, s, f, p) in enumerate(self.productions)])


def plain(x):
    if isinstance(x, tuple):
        return all(plain(y) for y in x)
    return isinstance(x, (str, int, type(None)))
