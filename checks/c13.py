"""C13: program text is tokenised and grouped by one fixed grammar."""
import itertools
import random
from .core import *  # noqa: F401,F403
from .core import Check, Res, subj, dist_term, sym, const, txt, nat, tm, TIER, HOLDS, VIOLATED, UNDECIDED, TRUE, NONE, Missing, bi
from . import grammar as gr
from . import spec as sp
from .exprs import dice_texts, small_counts
from .grammar import E

RULES = ["every text is cut into the documented tokens, each of its own kind",
         "the documented spellings of every kind are one token of that kind",
         "every sentence over the token kinds is grouped as documented, and rejected when it is not a sentence",
         "every documented rule is one of the grammar's productions, so that every kind of token is usable",
         "a production hands its parts to the operand positions of the documented expression",
         "the parser sees exactly the tokens of the text it was given and the state it was given"]
LEXSRC, PARSRC = "python_dice/src/python_dice_syntax_objects.py LEXER_SYNTAX", "python_dice/src/python_dice_syntax_objects.py PRECEDENCE/PARSER_EXPRESSIONS"


def texts(deep):
    """texts over which two token tables are told apart"""
    small = "05dkF%[]-*, \n\tabz_(!)=<>+/ANDORTrueFlsVMXIBé.A1#'\""
    small = "".join(dict.fromkeys(small))
    ascii_ = "".join(chr(c) for c in range(32, 127)) + "\n\té"
    for n in (1, 2):
        for t in itertools.product(ascii_, repeat=n):
            yield "".join(t)
    lex = [x for k in gr.LEXEMES for x in gr.LEXEMES[k]]
    kw = ["ABS", "MAX", "MIN", "AND", "OR", "VAR", "True", "False", "TRUE", "true", "var", "and", "or", "NOT", "ABSa", "aABS", "MAXIMUM", "ORAND", "VARa",
          "_VAR", "VAR_", "Truea", "aFalse", "a1", "1a", "d6a", "ad6", "A", "aB", "name_with_parts", "2d6k", "k1", "d", "dd", "d1d", "ddd", "kd6", "/", "===", "!==",
          "<==", "=>", "=<", "<>", "><", "--5", "- 5", "5 -5", "1-1", "1--1", "d[]", "d[,]", "d[1", "d[1 2]", "d[1-]", "d[1-2-3]", "d[--1]", "d[1*]", "d[*1]",
          "d[1*-1]", "d[1*2*3]", "d[1,,2]", "d[ 1 - 2 ]", "d[1 - 2]", "d[1 *2]", "d[\n1\n,\t2 , ]", "d%%", "dFF", "d6F", "00d007", "d100k0", "d6k1k2", "d6d1d2", "d6k1d2",
          "1d[1]k10", "d[1]d1", "2 d6", "2d 6", "2d6 k1", "d-6", "-2d6", "-d6", "+5", "5.5", "1e5", "1_000", "x1_", "é", "aé"]
    for x in kw + lex:
        yield x
    al = lex + kw
    for a, b in itertools.product(al, repeat=2):
        yield a + b
        yield a + " " + b
    for x in lex + kw[:30]:
        for p in range(len(x) + 1):
            for c in small:
                yield x[:p] + c + x[p:]
                yield x[:p] + c + x[p + 1:]
            yield x[:p] + x[p + 1:]
    for n in range(0, 7 if deep else 6):
        for t in itertools.product("1-*, ", repeat=n):
            w = "".join(t)
            yield "d[" + w + "]"
            if n < 5:
                yield "2d[" + w + "]k1"
                yield "d[3," + w
                yield "d[3," + w + "]"
                yield "d[" + w + ",3]d2"
    r = random.Random("texts")
    for _ in range(200000 if deep else 20000):
        yield "".join(r.choice(al) + r.choice(["", "", " ", "\n"]) for _ in range(r.randrange(3, 7)))
    if deep:
        for t in itertools.product(small, repeat=3):
            yield "".join(t)


def main():
    chk = Check("C13")
    R = chk.session(stubs=("rply",))
    ex = chk.guard("PythonDiceParser", RULES[3], lambda: gr.Extracted(chk, R))
    if not isinstance(ex, gr.Extracted):
        return chk.finish(RULES)
    names = {}      # spelling -> token name in the code
    kinds_of = {}   # token name -> kinds

    # ------------------------------------------------------------ tokens
    def spellings():
        lx = ex.lexer()
        for kind, words in gr.LEXEMES.items():
            for w in words:
                got = lx(w)
                ok = got is not None and len(got) == 1
                chk.holds("%s [%r]" % (LEXSRC, w), RULES[1], ok, "%r is cut into %s" % (w, got), "extracted table")
                if ok:
                    names[w] = got[0][0]
                    kinds_of.setdefault(got[0][0], set()).add(kind)
                    chk.holds("%s [%r] known to the grammar" % (LEXSRC, w), RULES[1], got[0][0] in ex.tokens,
                              "token %s of %r is not among the parser's tokens" % (got[0][0], w), "extracted table")
    chk.guard(LEXSRC, RULES[1], spellings)

    def tokenising():
        mine = [(n, r, f) for n, r, f in ex.rules]
        same = [(r, f) for n, r, f in mine] == [(r, 0) for k, r in gr.TABLE] and list(ex.ignore) == gr.IGNORE \
            and len({n for n, r, f in mine}) == len(mine)
        if same:
            chk.add(LEXSRC, RULES[0], HOLDS, "", "normal form")
            return
        a, b = gr.Lexer([(k, r, 0) for k, r in gr.TABLE], gr.IGNORE), ex.lexer()
        n = 0
        odd = None
        r = random.Random("bigrams")
        pairs = set()
        for _ in range(6000):
            x = sentence(r, r.randrange(1, 5))
            pairs |= set(zip(x, x[1:]))

        def usable(tokens):
            """a sequence of tokens that can be part of a sentence; others are rejected by the parser in any case"""
            ks = [[k] if k in gr.LEXEMES else sorted(kinds_of.get(k, ())) for k, w in tokens]
            return all(any((p, q) in pairs for p in a_ for q in b_) for a_, b_ in zip(ks, ks[1:]))
        for t in dict.fromkeys(texts(TIER == "thorough")):
            n += 1
            want, got = a(t), b(t)
            if want is None or got is None:
                bad = (want is None) != (got is None) and usable(want or got)
            elif not usable(want) and not usable(got):
                bad = False
            else:
                bad = [w for k, w in want] != [w for k, w in got]
                if not bad:
                    for (k, w), (g, _) in zip(want, got):
                        if k not in kinds_of.get(g, ()):
                            if kinds_of.get(g):
                                bad = True
                            else:
                                odd = (t, g)
            if bad:
                chk.add(LEXSRC, RULES[0], VIOLATED, "%r is cut into %s where %s is documented" % (t, got or "nothing (error)", want or "an error"), "separating text")
                return
        if odd:
            chk.add(LEXSRC, RULES[0], UNDECIDED, "token %s of %r has no documented counterpart" % (odd[1], odd[0]))
        chk.valuations += n
        chk.add(LEXSRC, RULES[0], HOLDS, "", "no separating text among %d" % n)
    chk.guard(LEXSRC, RULES[0], tokenising)

    # ------------------------------------------------------------ grouping
    def grouping():
        try:
            mine = ex.table()
        except gr.lalr.ParserGeneratorError as e:
            chk.add(PARSRC, RULES[2], VIOLATED, "rply refuses the grammar: %s" % e, "table construction")
            return
        ref = gr.reference()
        # one terminal per (kind, token name)
        terms = {}
        for kind, words in gr.LEXEMES.items():
            for w in words:
                if w in names:
                    terms.setdefault((kind, names[w]), w)
        order = sorted(terms)
        if not order:
            chk.add(PARSRC, RULES[2], UNDECIDED, "no token is recognised")
            return

        def isomorphic():
            todo, seen = [(0, 0)], {(0, 0)}
            while todo:
                s, t = todo.pop()
                for kind, name in order + [("$end", "$end")]:
                    x, y = ref.action[s].get(kind), mine.action[t].get(name)
                    x = ref.default[s] or x
                    y = mine.default[t] or y
                    if x is None or y is None:
                        if x is not y:
                            return False
                        continue
                    if (x > 0) != (y > 0) or (x < 0) != (y < 0):
                        return False
                    if x > 0 and (x, y) not in seen:
                        seen.add((x, y))
                        todo.append((x, y))
                    if x < 0:
                        p, q = ref.prods[-x].prod, mine.prods[-y].prod
                        if len(p) != len(q) or any((a == E) != (b not in ex.tokens) for a, b in zip(p, q)):
                            return False
                        for a, b in zip(p, q):
                            if a != E and a not in kinds_of.get(b, ()):
                                return False
                if len(ref.goto[s]) != len(mine.goto[t]) or len(ref.goto[s]) > 1:
                    return False
                for x, y in zip(ref.goto[s].values(), mine.goto[t].values()):
                    if (x, y) not in seen:
                        seen.add((x, y))
                        todo.append((x, y))
            return True
        if isomorphic():
            chk.add(PARSRC, RULES[2], HOLDS, "", "normal form")
        else:
            w = [0]

            def visit(c1, c2, seq, words, depth):
                w[0] += 1
                t1, t2 = ref.feed(c1, "$end", "$end"), mine.feed(c2, "$end", "$end")
                if (t1 and t1[1]) != (t2 and t2[1]):
                    return words, t1 and t1[1], t2 and t2[1]
                if depth == 0:
                    return None
                for kind, name in order:
                    if (kind, name) not in use:
                        continue
                    d1 = ref.feed(c1, kind, kind)
                    d2 = mine.feed(c2, name, kind)
                    if d1 is None and d2 is None:
                        continue
                    x = visit(d1, d2, seq, words + [terms[(kind, name)]], depth - 1)
                    if x:
                        return x
            found = None
            for use, deep in ((order, 4), ([o for o in order if o[0] not in ("dice", "dropkeep", "truth")], 6 if TIER == "quick" else 7),
                              ([o for o in order if o[0] in ("integer", "+", "*", "compare", "!", "-", "//", "(", ")")], 8 if TIER == "quick" else 9)):
                found = visit(ref.start(), mine.start(), [], [], deep)
                if found:
                    break
            r = random.Random("sentences")
            for _ in range(4000 if not found else 0):
                s = sentence(r, r.randrange(1, 7))
                ws = [r.choice([o for o in order if o[0] == k] or [None]) for k in s]
                if None in ws:
                    continue
                w[0] += 1
                t1, t2 = ref.parse([(k, k) for k in s]), mine.parse([(n, k) for k, n in ws])
                if t1 != t2:
                    found = ([terms[o] for o in ws], t1, t2)
                    break
            if found:
                chk.add(PARSRC, RULES[2], VIOLATED, "%r is grouped as %s where %s is documented" % (
                    " ".join(found[0]), spell(found[2]), spell(found[1])), "separating sentence")
            else:
                chk.valuations += w[0]
                chk.add(PARSRC, RULES[2], HOLDS, "", "no separating sentence among %d" % w[0])

    chk.guard(PARSRC, RULES[2], grouping)

    # ------------------------------------------------------------ productions
    fac = lambda: R.new("ProbabilityDistributionFactory")
    A, B = R.obj("A", "IDiceExpression"), R.obj("B", "IDiceExpression")
    nm = sym("name", "str")

    def state():
        s = R.meth(R.new("ProbabilityDistributionStateFactory"), "create_new_empty_set")
        R.meth(s, "set_constant", nm, sym("x", "int"))
        return s

    def token(name, value):
        return R.i.call(R.attr("rply", "Token"), [const(name), value, NONE])

    def spellings_of(kind):
        """symbolic spellings of a kind, with the representative that fixes its token name"""
        if kind == "integer":
            return [(nat("N"), "5"), (txt("-", nat("N")), "-5")]
        if kind == "dice":
            return [(txt(nat("N"), "d", *t), "2d6") for lab, t, w, en in dice_texts(True)] + [(txt("d", nat("X")), "d[1]")]
        if kind == "dropkeep":
            return [(txt(nat("N"), "d", *t, kd, nat("K")), "2d6k1") for lab, t, w, en in dice_texts(True) for kd in "kd"]
        if kind == "name":
            return [(nm, "a")]
        return [(const(w), w) for w in gr.LEXEMES[kind]]

    BIN = {k: v for k, v in sp.BINARY.items()}

    def expected(shape, st, texts_):
        """the documented expression of a rule"""
        ops = [A, B]
        if shape == ("(", E, ")"):
            return "ParenthesisEnclosedExpression", [A]
        if shape == ("!", E):
            return "NotExpression", [A]
        if shape == ("ABS", "(", E, ")"):
            return "AbsExpression", [A]
        if shape in (("integer",), ("truth",), ("dice",), ("dropkeep",)):
            return {"integer": "ConstantIntegerExpression", "truth": "ConstantBinaryExpression", "dice": "DiceExpression",
                    "dropkeep": "DropKeepExpression"}[shape[0]], [texts_[0], fac()]
        if shape == ("name",):
            return "GetVarExpression", [st, texts_[0]]
        if shape == ("VAR", "name", "=", E):
            return "VarAssignmentExpression", [st, texts_[1], A]
        if shape == ("minmax", "(", E, ",", E, ")"):
            return "MinMaxExpression", [texts_[0]] + ops
        if shape == (E, "compare", E):
            return "BinaryOperatorExpression", [texts_[1]] + ops
        return BIN[shape[1]][0], ops

    found = set()

    def production(j):
        lhs, syms, fn, prec = ex.productions[j]
        # every reading of the right hand side in terms of kinds
        opts = [[E] if s not in ex.tokens else sorted(kinds_of.get(s, ())) for s in syms]
        if len(syms) == 1 and opts[0] == [E]:
            code = chk.run(R, lambda: R.i.call(fn, [state(), R.list_([A])]))
            chk.holds("%s [%s]" % (PARSRC, " ".join(syms)), RULES[4], code.value is A, "a rule with one part does not give that part", "structure")
            return
        for shape in itertools.product(*opts):
            if shape not in gr.SHAPES:
                continue
            found.add(shape)
            words = [[(None, None)] if k == E else [x for x in spellings_of(k) if names.get(x[1]) == s] for k, s in zip(shape, syms)]
            for ws in itertools.product(*words):
                one_production(fn, syms, shape, ws)

    def one_production(fn, syms, shape, ws):
        label = " ".join("e" if w[0] is None else str(w[0]) for w in ws)

        def parts():
            ops = iter([A, B])
            return R.list_([next(ops) if k == E else token(s, w[0]) for k, s, w in zip(shape, syms, ws)])
        cls, _ = expected(shape, NONE, [w[0] for w in ws])
        for m in ("roll", "max", "min", "estimated_cost", "get_probability_distribution", "get_contained_variables", "__str__"):
            if shape == ("dropkeep",) and m == "get_probability_distribution" and "'F" not in label and TIER == "quick":
                continue  # the most expensive summaries: one text is enough to see which class is built

            def ask(make):
                st = state()
                e = make(st)
                if m == "get_probability_distribution":
                    v = dist_term(R, e)
                elif m == "__str__":
                    v = R.freeze(R.i.call(bi("str"), [e]))
                else:
                    v = R.freeze(R.meth(e, m))
                if shape == ("VAR", "name", "=", E) and m in ("roll", "max", "min"):
                    return tm.tup([v, R.freeze(R.meth(st, "get_constant", nm))])
                return v
            sj = "%s production [%s] %s" % (subj(R, cls, "add_production_function"), label, m)

            def one():
                code = chk.run(R, lambda: ask(lambda st: R.i.call(fn, [st, parts()])))
                want = chk.run(R, lambda: ask(lambda st: R.new(cls, *expected(shape, st, [w[0] for w in ws])[1])))
                chk.same(sj, RULES[4], code, want, over=small_counts(label), n=8 if shape[0] in ("dice", "dropkeep") else None)
            chk.guard(sj, RULES[4], one)

    for j in range(len(ex.productions)):
        chk.guard(PARSRC + " production %d" % j, RULES[4], lambda: production(j))
    for s in gr.SHAPES:
        chk.holds("%s [%s]" % (PARSRC, " ".join(s)), RULES[3], s in found or len({p[0] for p in ex.productions}) > 1,
                  "no production for this rule", "extracted grammar")

    # ------------------------------------------------------------ wiring
    def wiring():
        lx = ex.lexer()
        text = sym("text1", "str")
        ctl = R.attr("rply", "CONTROL")
        words = ["1 + 2", "VAR a = 2d6", " ( 5 )", "MAX( 1, 2) ", "a", "True AND a", "\td%k1\n", "x == -1", "", "   ", "d[1, 2]", "!a", "1 2", "A", "a;b"]

        def over(k):
            return {"!": 1, "text1": words[k % len(words)]}
        tk = [token("X%d" % j, const("t%d" % j)) for j in range(3)]

        def start():
            p = R.new("PythonDiceParser")
            for k, v in (("fail", tm.FALSE), ("tokens", R.list_(tk)), ("result", A), ("parse_error", const(""))):
                R.meth(ctl, "__setitem__", const(k), v)
            return p

        def logged(kind):
            log = R.freeze(R.attr("rply", "LOG"))
            return [e for e in log.args if e.op == "tup" and gr.lit(e.args[0]) == kind]

        def norm(a):
            if a[0] == "value" and isinstance(a[1], tuple):
                return ("value", tuple(lx(x) if isinstance(x, str) else x for x in a[1]))
            return a
        for lab, st in (("state given", lambda: R.obj("state", "IProbabilityDistributionState")), ("no state given", lambda: None)):
            def f():
                p = start()
                s = st()
                n0 = len(logged("lex"))
                R.meth(p, "parse", text, *([s] if s is not None else []))
                return tm.tup([e.args[1] for e in logged("lex")[n0:]])
            chk.same(subj(R, "PythonDiceParser", "parse") + " text lexed [%s]" % lab, RULES[5], chk.run(R, f), Res(tm.tup([text])), over=over, norm=norm)

            def f():
                p = start()
                s = st()
                n0 = len(logged("parse"))
                r = R.meth(p, "parse", text, *([s] if s is not None else []))
                ps = logged("parse")[n0:]
                toks = [x for e in ps for x in e.args[1].args]
                keep["parse"] = (len(ps), toks == [R.freeze(t) for t in tk] or toks == tk, [e.args[2] for e in ps], r, s)
                return R.freeze(r)
            keep = {}
            res = chk.run(R, f)
            if "parse" not in keep:
                chk.add(subj(R, "PythonDiceParser", "parse") + " [%s]" % lab, RULES[5], UNDECIDED, "; ".join(res.notes[:2]))
                continue
            n, same, states, r, s = keep["parse"]
            sj = subj(R, "PythonDiceParser", "parse") + " [%s]" % lab
            chk.holds(sj + " tokens", RULES[5], n == 1 and same, "%d parses; the lexer's tokens are %s handed on" % (n, "" if same else "not"), "log of the rply stand-in")
            if s is not None:
                chk.holds(sj + " state", RULES[5], states == [s], "the state handed to rply is %s" % (states,), "log of the rply stand-in")
                chk.holds(sj + " result", RULES[5], res.value is tm.tup([A, s]), "parse gives %s" % (res.value,), "structure")
            else:
                ok = res.value is not None and res.value.op == "tup" and len(res.value.args) == 2 and res.value.args[0] is A
                chk.holds(sj + " result", RULES[5], ok, "parse gives %s" % (res.value,), "structure")
    chk.guard("PythonDiceParser.parse", RULES[5], wiring)
    return chk.finish(RULES)


def sentence(r, depth):
    """a random sentence, as kinds"""
    if depth <= 0:
        return [r.choice(["integer", "name", "dice", "dropkeep", "truth"])]
    c = r.randrange(12)
    e = lambda: sentence(r, depth - r.randrange(1, 3))
    if c < 6:
        return e() + [r.choice(["+", "-", "*", "//", "compare"])] + e()
    if c < 8:
        return ["!"] + e()
    if c == 8:
        return ["("] + e() + [")"]
    if c == 9:
        return ["minmax", "("] + e() + [","] + e() + [")"]
    if c == 10:
        return ["ABS", "("] + e() + [")"]
    return ["VAR", "name", "="] + e()


def spell(t):
    if t is None:
        return "an error"
    if isinstance(t, str):
        return t
    kids = t[1]
    return kids[0] if len(kids) == 1 else "[%s]" % " ".join(spell(k) for k in kids)
