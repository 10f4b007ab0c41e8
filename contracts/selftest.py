"""Self-test of the executor: true statements must be proved, false ones must not be."""
from contracts.common import *  # noqa

P = Prop("selftest", [])
XT = Opaque("X", lambda k: ("x", k))


def sums(xs):
    t = 0
    for x in xs:
        t += x
    return t


@P.contract(xs=ListOf(Int(0)))
def t_sum(xs):
    ensure("a", sums(xs) == sum(xs))
    ensure("b", sums(xs) >= 0)


@P.contract(xs=ListOf(Int()))
def f_sum(xs):
    ensure("a", sums(xs) >= 0)


@P.contract(xs=ListOf(XT), y=XT)
def t_filter(xs, y):
    out = [x for x in xs if x != y]
    ensure("a", y not in out)
    ensure("b", all(x in xs for x in out))
    ensure("c", len(out) <= len(xs))


@P.contract(xs=ListOf(XT), y=XT)
def f_filter(xs, y):
    out = [x for x in xs if x != y]
    ensure("a", len(out) == len(xs))


@P.contract(d=DictOf(XT, Int()), k=XT, v=Int())
def t_dict(d, k, v):
    e = dict(d)
    e[k] = v
    ensure("a", e[k] == v)
    ensure("b", all(e[x] == d[x] for x in d if x != k))
    ensure("c", len(e) == len(d) + (0 if k in d else 1))


@P.contract(d=DictOf(XT, Int()), k=XT, v=Int())
def f_dict(d, k, v):
    e = d
    e[k] = v
    ensure("a", k in d and len(d) > 1)


@P.contract(d=DictOf(XT, Int()), k=XT)
def f_alias(d, k):
    e = d
    e[k] = 1
    ensure("a", implies(k in d, k in d and d[k] != 1))


@P.contract(xs=ListOf(Int()))
def f_loop(xs):
    last = 0
    for x in xs:
        if x > 3:
            last = x
    ensure("a", last == 0)


@P.contract(n=Int(0), m=Int(1))
def t_div(n, m):
    ensure("a", (n // m) * m + n % m == n)
    ensure("b", 0 <= n % m < m)


@P.contract(n=Int(), m=Int(1))
def f_div(n, m):
    ensure("a", n // m >= 0)


@P.contract(n=Int())
def f_raise(n):
    if n == 41:
        raise ValueError("x")
    ensure("a", n != 41)


@P.contract(xs=ListOf(Int()), ys=ListOf(Int()))
def t_zip(xs, ys):
    out = [a + b for a, b in zip(xs, ys)]
    ensure("a", len(out) == min(len(xs), len(ys)))
    ensure("b", all(out[k] == xs[k] + ys[k] for k in range(len(out))))


@P.contract(xs=ListOf(Int()), ys=ListOf(Int()))
def f_zip(xs, ys):
    ensure("a", len(list(zip(xs, ys))) == len(xs))


@P.contract(x=Real(), y=Real())
def t_real(x, y):
    ensure("a", (x + y) * (x - y) == x * x - y * y)
    ensure("b", x * x + y * y >= 0)


@P.contract(x=Real(), y=Real())
def f_real(x, y):
    ensure("a", x * y >= 0)


@P.contract(xs=ListOf(ListOf(XT)))
def t_flat(xs):
    out = [x for s in xs for x in s]
    ensure("a", len(out) == sum(len(s) for s in xs))


@P.contract(xs=ListOf(ListOf(XT)))
def f_flat(xs):
    out = [x for s in xs for x in s]
    ensure("a", len(out) == len(xs))


def share(xs):
    a = [[] for _ in range(2)]
    a[0].append(xs)
    return a


@P.contract(x=XT)
def t_nest(x):
    a = share(x)
    ensure("a", len(a[0]) == 1 and len(a[1]) == 0)
    b = [[]] * 2
    b[0].append(x)
    ensure("b", len(b[1]) == 1)


@P.contract(xs=ListOf(XT), y=XT)
def t_while(xs, y):
    k = 0
    while k < len(xs) and xs[k] != y:
        k += 1
    ensure("a", 0 <= k <= len(xs))
    ensure("b", implies(k < len(xs), k < len(xs) and xs[k] == y))
    ensure("c", all(x != y for x in xs[:k]))


def _default(x, acc=[]):
    acc.append(x)
    return len(acc)


def chop(xs, ns):
    it = iter(xs)
    return [[next(it) for _ in range(n)] for n in ns]


@P.contract(xs=ListOf(XT, 2))
def t_next(xs):
    it = iter(xs)
    a = next(it)
    b = next(it)
    ensure("a", a == xs[0] and b == xs[1])
    ensure("b", list(it) == xs[2:])


@P.contract(xs=ListOf(XT, 2))
def f_next(xs):
    it = iter(xs)
    a = next(it)
    b = next(it)
    ensure("a", b == xs[0])


@P.contract(xs=ListOf(XT, 2))
def f_twice(xs):
    g = (x for x in xs)
    ensure("a", len(list(g)) == len(list(g)))


@P.contract(xs=ListOf(XT))
def t_loopnext(xs):
    it = iter(xs)
    out = []
    for i in range(len(xs)):
        out.append(next(it))
    ensure("a", out == xs)


@P.contract(xs=ListOf(XT, 1))
def f_loopnext(xs):
    it = iter(xs)
    out = []
    for i in range(len(xs)):
        out.append(next(it))
    ensure("a", all(x == xs[0] for x in out))
