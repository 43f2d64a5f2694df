import bisect
import collections
import contextlib
import copy
import functools
import heapq
import itertools
import math
import operator
from collections import Counter, OrderedDict, defaultdict, deque
from dataclasses import dataclass, field
from enum import Enum
from typing import NamedTuple


def s_sorted_key(l): return sorted(l, key=lambda v: -v)
def s_sorted_rev(l): return sorted(l, reverse=True)
def s_sorted_set(l): return sorted(set(l))
def s_max_default(l): return max(l, default=7)
def s_min_key(l): return min(l, key=abs, default=None)
def s_sum_start(l): return sum(l, 3)
def s_sum_kw(l): return sum(l, start=2)
def s_enum_start(l): return list(enumerate(l, start=2))
def s_enum_pos(l): return [k * v for k, v in enumerate(l, 1)]
def s_zip3(l): return list(zip(l, l[1:], range(9)))
def s_rev(l): return list(reversed(l))
def s_slice(l, x, y): return l[x:y]
def s_slice_step(l): return l[::2]
def s_slice_neg(l): return l[::-1]
def s_index(l, x): return l[x]
def s_in(l, x): return x in l
def s_count(l, x): return l.count(x)
def s_indexof(l, x): return l.index(x)
def s_mul(l, n): return l * n
def s_concat(l, x): return l + [x] + l
def s_extend(l):
    a = list(l)
    a.extend(v * 2 for v in l)
    a.append(1)
    return a
def s_insert(l, x):
    a = l.copy()
    a.insert(0, x)
    return a
def s_pop(l):
    a = l[:]
    v = a.pop()
    return v, a
def s_remove(l, x):
    a = list(l)
    a.remove(x)
    return a
def s_del(l):
    a = list(l)
    del a[0]
    return a
def s_sort(l):
    a = list(l)
    a.sort(reverse=True)
    return a
def s_star(l):
    a, *b = l
    return a, b
def s_star2(l):
    *a, b = l
    return a, b
def s_divmod(x, y): return divmod(x, y)
def s_floordiv(x, y): return x // y
def s_mod(x, y): return x % y
def s_pow(x): return x ** 2 + 2 ** 3
def s_truediv(x, y): return x / y
def s_abs(x): return abs(x) + -x
def s_bit(x): return (x > 0) & True, (x > 0) | False, (x > 0) ^ True
def s_chain(x, y): return -1 < x <= y
def s_and(x, y): return x and y
def s_or(x, y): return x or y
def s_not(x): return not x
def s_ternary(x, y): return x if x > y else y
def s_minmax(x, y): return min(x, y), max(x, y, 0)
def s_bool(x): return bool(x), int(x > 1)
def s_round(x): return round(x / 2 + 0.1)
def s_floor(x): return math.floor(x / 2), math.ceil(x / 2)
def s_int_float(x): return int(x / 2)
def s_sign(x): return (x > 0) - (x < 0)
def d_items(m): return sorted(m.items())
def d_get(m, x): return m.get(x, 5)
def d_in(m, x): return x in m
def d_item(m, x): return m[x]
def d_values(m): return sum(m.values()), len(m)
def d_comp(m): return {k + 1: v for k, v in m.items() if v}
def d_inv(m): return {v: k for k, v in sorted(m.items())}
def d_setdefault(m, x):
    d = dict(m)
    a = d.setdefault(x, 4)
    return a, d
def d_update(m, x):
    d = dict(m)
    d.update({x: 9})
    return d
def d_merge(m, x): return {**m, x: 1}
def d_pop(m, x):
    d = dict(m)
    a = d.pop(x, None)
    return a, d
def d_pop_raise(m, x):
    d = dict(m)
    return d.pop(x)
def d_del(m, x):
    d = dict(m)
    del d[x]
    return d
def d_fromkeys(l): return dict.fromkeys(l, 1)
def d_kw(x): return dict(a=x, b=2)
def d_zip(l): return dict(zip(l, range(10)))
def d_acc(l):
    d = {}
    for v in l:
        d[v] = d.get(v, 0) + 1
    return d
def d_default(l):
    d = defaultdict(int)
    for v in l:
        d[v] += 2
    return dict(d)
def d_defaultlist(l):
    d = defaultdict(list)
    for v in l:
        d[v % 2].append(v)
    return {k: len(v) for k, v in d.items()}
def c_counter(l): return dict(Counter(l))
def c_counter_get(l, x): return Counter(l)[x]
def c_counter_add(l, m): return dict(Counter(l) + Counter(m))
def c_counter_update(l, m):
    c = Counter(m)
    c.update(l)
    return dict(c)
def c_max_key(m): return max(m)
def c_min_value(m): return min(m.values())
def c_sorted_map(m): return [m[k] for k in sorted(m)]
def c_any(l): return any(v > 1 for v in l), all(v > -2 for v in l)
def c_filter(l): return list(filter(None, l))
def c_map(l): return list(map(abs, l))
def c_map2(l): return list(map(operator.add, l, l[1:]))
def c_set_ops(l): return {v for v in l if v > 0} | {7} - {1}
def c_set_inter(l, m): return set(l) & set(m)
def c_set_diff(l, m): return set(l).difference(m)
def c_set_sym(l, m): return set(l) ^ set(m)
def c_set_sub(l, m): return set(l) <= set(m), set(l).isdisjoint(m)
def c_set_add(l, x):
    s = set(l)
    s.add(x)
    s.discard(1)
    return s
def c_set_len(l): return len(set(l))
def c_frozen(l): return frozenset(l) == set(l)
def c_range(n): return list(range(n)), sum(range(1, n + 1))
def c_range_step(n): return list(range(n, 0, -1))
def c_range_in(x): return x in range(0, 3)
def c_range_len(x, y): return len(range(x, y))
def c_nested(n): return [(i, j) for i in range(n) for j in range(i)]
def c_gen(l): return sum(v * v for v in l if v % 2 == 0)
def c_dictlen(m): return len({v for v in m.values()})
def i_reduce(l): return functools.reduce(operator.mul, l, 1)
def i_reduce_none(l): return functools.reduce(lambda a, b: a + b, l)
def i_accumulate(l): return list(itertools.accumulate(l))
def i_acc_init(l): return list(itertools.accumulate(l, initial=1))
def i_chain(l): return list(itertools.chain(l, [1], l))
def i_chain_iter(l): return list(itertools.chain.from_iterable([l, l]))
def i_product(l): return [a * b for a, b in itertools.product(l, l)]
def i_product_rep(n): return sum(1 for _ in itertools.product(range(2), repeat=3)) + n
def i_starmap(l): return list(itertools.starmap(operator.mul, zip(l, l)))
def i_repeat(x): return list(itertools.repeat(x, 3))
def i_islice(l): return list(itertools.islice(l, 2))
def i_combos(l): return sum(a * b for a, b in itertools.combinations(l[:3], 2))
def i_takewhile(l): return list(itertools.takewhile(lambda v: v > 0, l))
def i_dropwhile(l): return list(itertools.dropwhile(lambda v: v > 0, l))
def i_groupby(l): return [(k, len(list(g))) for k, g in itertools.groupby(sorted(l[:3]))]
def i_ziplong(l): return list(itertools.zip_longest(l, l[1:], fillvalue=0))
def i_compress(l): return list(itertools.compress(l, [1, 0, 1]))
def i_count(l): return [a + b for a, b in zip(l, itertools.count(1))]
def i_pairs(l): return list(itertools.filterfalse(lambda v: v > 0, l))
def h_nlargest(l): return heapq.nlargest(2, l)
def h_nsmallest(l, n): return sum(heapq.nsmallest(n, l))
def h_bisect(l, x): return bisect.bisect_left(sorted(l), x)
def h_insort(l, x):
    a = sorted(l)
    bisect.insort(a, x)
    return a
def h_deque(l):
    d = deque(l)
    d.appendleft(5)
    d.append(6)
    a = d.popleft()
    return a, list(d)
def h_next(l): return next((v for v in l if v > 1), -1)
def h_iter(l):
    it = iter(l)
    a = next(it, 0)
    return a, list(it)
def h_copy(m):
    a = copy.copy(m)
    a[99] = 1
    return m, a
def h_ordered(l): return list(OrderedDict((v, 1) for v in l))
def h_partial(x): return functools.partial(operator.sub, 10)(x)
def h_partial_kw(x):
    def f(a, b=1, *, c=0): return a * 100 + b * 10 + c
    return functools.partial(f, c=3)(x, b=2)
def h_item(l): return [operator.itemgetter(0)(p) for p in zip(l, l)]
def h_methodcaller(m, x): return operator.methodcaller("get", x, 3)(m)
def w_while(n):
    t = 0
    while n > 0:
        t += n
        n -= 1
    return t
def w_break(l):
    for v in l:
        if v > 1:
            break
    else:
        return "none"
    return v
def w_break2(l):
    t = 0
    for v in l:
        if v < 0:
            break
        t += v
    return t
def w_continue(l):
    t = 0
    for v in l:
        if v < 0:
            continue
        t += v
    return t
def w_return(l):
    for k, v in enumerate(l):
        if v == 2:
            return k
    return -1
def w_nested_break(l):
    t = 0
    for v in l:
        for w in range(3):
            if w > v:
                break
            t += 1
    return t
def w_last(l):
    v = None
    for v in l:
        pass
    return v
def w_fib(n):
    a, b = 0, 1
    for _ in range(n):
        a, b = b, a + b
    return a
def w_run_max(l):
    best = -9
    for v in l:
        if v > best:
            best = v
    return best
def w_flag(l):
    seen = False
    for v in l:
        if v == 1:
            seen = True
    return seen
def w_two(l):
    pos, neg = [], []
    for v in l:
        (pos if v > 0 else neg).append(v)
    return pos, neg
def w_recursion(n): return 1 if n == 0 else n * w_recursion(n - 1)
def t_try(x, y):
    try:
        return x // y
    except ZeroDivisionError:
        return 99
def t_finally(x, y):
    log = []
    try:
        log.append(x // y)
    except ZeroDivisionError:
        log.append(-1)
    else:
        log.append(5)
    finally:
        log.append(7)
    return log
def t_key(m, x):
    try:
        return m[x]
    except KeyError:
        return "no"
def t_lookup(m, x):
    try:
        return m[x]
    except LookupError as error:
        raise ValueError("bad") from error
def t_suppress(m, x):
    r = 0
    with contextlib.suppress(KeyError):
        r = m[x]
    return r
def t_raise(x):
    if x > 1:
        raise ValueError(x)
    return x
def t_assert(x):
    assert x >= 0
    return x
def t_stack(l):
    out = []
    with contextlib.ExitStack() as stack:
        stack.callback(out.append, 1)
        stack.callback(out.append, 2)
        out.extend(l)
    return out
@contextlib.contextmanager
def _noting(log):
    log.append("in")
    try:
        yield 5
    finally:
        log.append("out")
def t_cm(x):
    log = []
    with _noting(log) as v:
        log.append(v + x)
    return log
class _Point(NamedTuple):
    a: int
    b: int = 2

    def total(self): return self.a + self.b
def n_tuple(x): return _Point(x), _Point(x).total(), _Point(b=x, a=1)._replace(a=5)
def n_unpack(x):
    a, b = _Point(x, 4)
    return a * 10 + b
def n_eq(x, y): return _Point(x, 1) == _Point(y, 1), _Point(x) == (x, 2), _Point(x, 1) < _Point(y, 1)
def n_key(x, y): return len({_Point(x, 1), _Point(y, 1)})
_Pair = collections.namedtuple("Pair", "one two")
def n_pair(x): return _Pair(x, two=3).two + _Pair(one=x, two=0)[0]
@dataclass(frozen=True)
class _D:
    a: int
    b: list = field(default_factory=list)
    c: int = 3
def n_data(x): return _D(x).a + _D(x, c=1).c, _D(x) == _D(1), len(_D(x).b)
class _E(Enum):
    A = "a"
    B = "b"

    @property
    def other(self): return _E.B if self is _E.A else _E.A
def n_enum(s):
    return _E(s).name
def n_enum2(x):
    e = _E.A if x > 0 else _E.B
    return e.value, e.other.name, e is _E.A, e == _E.B, {_E.A: 1, _E.B: 2}[e], [m.name for m in _E]
class _P:
    kind = "P"

    def __init__(self, v): self._v = v
    @property
    def v(self): return self._v
    @v.setter
    def v(self, n): self._v = n * 2
    def __eq__(self, o): return isinstance(o, _P) and self._v == o._v
    def __hash__(self): return hash(self._v)
    def __add__(self, o): return _P(self._v + o._v)
    def __lt__(self, o): return self._v < o._v
    def __call__(self, k): return self._v + k
    def __len__(self): return 3
    def __contains__(self, k): return k == self._v
    def __iter__(self): return iter([self._v, 1])
    def __getitem__(self, k): return self._v * k
    @classmethod
    def make(cls, v): return cls(v + 1)
    @staticmethod
    def twice(v): return 2 * v
class _Q(_P):
    kind = "Q"

    def __init__(self, v):
        super().__init__(v)
        self.w = 1
    def __call__(self, k): return super().__call__(k) + 100
def o_prop(x):
    p = _P(x)
    p.v = x
    return p.v, p.kind, _Q(x).kind, _Q.make(x).w
def o_ops(x, y): return (_P(x) + _P(y)).v, _P(x) == _P(y), _P(x) != _P(y), _P(x) < _P(y)
def o_hash(x, y): return len({_P(x), _P(y)}), {_P(x): 1}.get(_P(y), 0)
def o_call(x): return _P(x)(2), _Q(x)(2), len(_P(x)), x in _P(x), list(_P(x)), _P(x)[3]
def o_isinst(x): return isinstance(_Q(x), _P), isinstance(x, int), isinstance(x, (str, int)), isinstance(True, int), type(_Q(x)) is _P
def o_getattr(x): return getattr(_P(x), "v"), getattr(_P(x), "nope", 4), hasattr(_P(x), "kind")
def o_sorted(x, y): return [p.v for p in sorted([_P(x), _P(y), _P(0)])]
def o_max(x, y): return max([_P(x), _P(y)], key=lambda p: p.v).v
def f_default(x, y):
    def g(a, b=2, *args, c=3, **kw): return a, b, args, c, sorted(kw)
    return g(x), g(x, y, 1, 2, c=5, z=1), g(*[x, y], **{"c": 4})
def f_closure(x):
    def outer():
        n = x
        def inc(k):
            nonlocal n
            n += k
            return n
        inc(1)
        return inc(2)
    return outer()
def f_late(x):
    fs = [lambda k=k: k + x for k in range(3)]
    return [f() for f in fs]
def f_late2(x):
    fs = []
    for k in range(3):
        fs.append(lambda: k + x)
    return [f() for f in fs]
def _gen(l):
    for v in l:
        if v:
            yield v
    yield -7
def f_gen(l): return list(_gen(l))
def _gen2(l):
    yield from l
    yield from _gen(l)
def f_gen2(l): return sum(_gen2(l))
def f_walrus(x): return (z := x + 1) * z
def f_fstr(x): return f"{x}-{x + 1:d} {x!r}"
def f_join(l): return "|".join(str(v) for v in l)
def f_format(x): return "{}/{a}".format(x, a=1) + "%d,%s" % (x, x)
def f_split(): return "a|b||c".split("|"), "a b".partition(" "), " x ".strip(), "AbC".lower(), "abcab".replace("ab", "x"), "ab".startswith("a")
def f_str(s): return s == "ab", s in ("a", "b"), s + "z", s * 2 == "aa", not s
def f_cond_text(x): return {True: "yes", False: "no"}[x > 0]
def f_int(x): return int(str(x)), int(" 12 "), int("-3")
def f_mutable_default(x):
    def g(v, acc=[]):
        acc.append(v)
        return len(acc)
    return g(x), g(x)
def f_alias(l):
    a = l
    a.append(1)
    return len(l)
def f_swap(x, y):
    x, y = y, x
    return x - y
def f_aug(l, x):
    a = list(l)
    b = a
    b += [x]
    return a
def f_del_attr(x):
    d = {"a": x}
    d["b"] = d.pop("a")
    return d
def f_tuple_cmp(x, y): return (x, 1) < (y, 2), (x, y) == (y, x), max((x, 1), (y, 0))
def f_cmp_chain(x): return 0 <= x < 3 and x != 1
def f_global(x):
    global _G
    _G = x
    return _G + 1
_G = 0
@functools.lru_cache(maxsize=None)
def _cached(v): return v * 3
def f_cached(x): return _cached(x) + _cached(x + 1)
@functools.singledispatch
def _kind(v): return "other"
@_kind.register
def _(v: int): return "int"
@_kind.register(str)
def _(v): return "str"
def f_dispatch(x): return _kind(x), _kind("a"), _kind(None)
def f_setcomp_order(l): return sorted({v * v for v in l})
def f_minmax_gen(l): return max((v for v in l if v < 2), default=0) - min([0, *l])
def f_zip_star(l): return [list(t) for t in zip(*[(v, v + 1) for v in l])]
def f_dict_items_mut(m):
    out = {}
    for k, v in m.items():
        for _ in range(v):
            out[k] = out.get(k, 0) + k
    return out
def f_any_map(m, x): return any(k == x and v for k, v in m.items())
def f_sum_map(m): return sum(k * v for k, v in m.items())
def f_weighted(m): return sum(k * v for k, v in m.items()) / sum(m.values())
def f_cumul(m):
    t, out = 0, {}
    for k in sorted(m):
        t += m[k]
        out[k] = t
    return out
def f_fill(m): return {k: m.get(k, 0) for k in range(min(m), max(m) + 1)}
