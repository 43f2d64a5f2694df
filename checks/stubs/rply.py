"""Stand-in for rply, read by the analyser, never executed. CONTROL and LOG let a check choose what the library does and see
what was asked of it."""
from rply.errors import LexingError, ParserGeneratorError, ParsingError
from rply.token import BaseBox, SourcePosition, Token

CONTROL = {"fail": False, "position": 0, "line": 1, "column": 1, "tokens": [], "result": None, "parse_error": "", "echo": False}
LOG = []


class LexerStream:
    def __init__(self, text):
        self.text = text

    def __iter__(self):
        if CONTROL["fail"]:
            raise LexingError(None, SourcePosition(CONTROL["position"], CONTROL["line"], CONTROL["column"]))
        if CONTROL["echo"]:
            return iter([self.text])
        return iter(CONTROL["tokens"])


class Lexer:
    def __init__(self, rules, ignore_rules):
        self.rules = rules
        self.ignore_rules = ignore_rules

    def lex(self, s):
        LOG.append(("lex", s))
        return LexerStream(s)


class LexerGenerator:
    def __init__(self):
        self.rules = []
        self.ignore_rules = []

    def add(self, name, pattern, flags=0):
        self.rules.append((name, pattern, flags))

    def ignore(self, pattern, flags=0):
        self.ignore_rules.append((pattern, flags))

    def build(self):
        LOG.append(("lexer", tuple(self.rules), tuple(self.ignore_rules)))
        return Lexer(self.rules, self.ignore_rules)


class LRParser:
    def __init__(self, generator):
        self.generator = generator

    def parse(self, tokenizer, state=None):
        tokens = tuple(tokenizer)
        LOG.append(("parse", tokens, state))
        if CONTROL["echo"]:
            return ("tree of", tokens, state)
        if CONTROL["parse_error"] == "handler":
            self.generator.error_handler(state, CONTROL["token"])
        if CONTROL["parse_error"] == "ValueError":
            raise ValueError("from a production")
        if CONTROL["parse_error"] == "KeyError":
            raise KeyError("from a production")
        return CONTROL["result"]


class ParserGenerator:
    def __init__(self, tokens, precedence=[], cache_id=None):
        self.tokens = tokens
        self.productions = []
        self.precedence = precedence
        self.cache_id = cache_id
        self.error_handler = None

    def production(self, rule, precedence=None):
        def inner(func):
            self.productions.append((rule, func, precedence))
            return func

        return inner

    def error(self, func):
        self.error_handler = func
        return func

    def build(self):
        LOG.append(("grammar", tuple(self.tokens), tuple(self.precedence), tuple(self.productions), self.error_handler))
        return LRParser(self)
