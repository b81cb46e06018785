"""Scripts with symbolic inputs, shared by the checks of the collection

Each script reads its inputs with inp(name) and reports values with out(...).
"""

SCRIPTS = {}


def script(name, code, **inputs):
    SCRIPTS[name] = (code.strip("\n") + "\n", inputs or {
        "a": (-2000, 2000), "b": (-2000, 2000)})


SMALL = (0, 4)
BIG = (1000, 5000)

script("arith", """
a = inp("a")
b = inp("b")
c = a + b * 2 - (a - b) // 3
d = -a
e = a % 7
out(c, d, e, a == b, a < b, a != 3, +b)
""")

script("shadowing", """
a = inp("a")
b = inp("b")
x = max(a, 3)
def max(*args):
    return args[0] + 1
y = max(a, b)
def f(min):
    len = min + 1
    return len
z = min(a, b)
w = f(b)
def g():
    sum = b
    def h():
        nonlocal sum
        sum = sum + a
        return sum
    return h()
v = g()
abs = a
def k():
    global abs
    abs = abs + b
    return abs
u = k()
class C(object):
    x = b
    y = x
    def m(self):
        return x
t = C.y, C().m()
r = [i for i in (b, 1)]
s = x
del abs
q = abs(-1)
out(x, y, z, w, v, u, t, r, s, q)
""")

script("compare", """
a = inp("a")
b = inp("b")
out(a < b < 1500, not a)
""")

script("boolops", """
a = inp("a")
b = inp("b")
def f(x):
    out("f", x)
    return x
c = f(a > 3) and f(b > 3)
d = f(a > 3) or f(b > 3) or f(a + b)
e = (a and b) or (b and a) or -1
g = not (a and not b)
out(c, d, e, g)
""", a=(-2, 6), b=(-2, 6))

script("ifelse", """
a = inp("a")
b = inp("b")
if a > b:
    x = 1
    if a > 10:
        x = 2
elif a == b:
    x = 3
else:
    x = 4
    if b - a > 5:
        x = x + a
        y = x
    else:
        pass
z = x if a > 0 else b if b > 0 else a - b
out(x, z)
""")

script("while", """
a = inp("a")
n = inp("n")
i = 0
total = 0
while i < n:
    i += 1
    if i == a:
        continue
    if total > 6:
        out("break", i)
        break
    total += i
else:
    out("else", i)
out(i, total)
""", a=(0, 5), n=(0, 5))

script("for", """
a = inp("a")
b = inp("b")
values = [a, b, a - b, 3]
total = 0
for value in values:
    if value < 0:
        continue
    for other in (1, b):
        if other == value:
            break
        total = total + other
    else:
        total = total * 2
    if total > 20:
        out("stop", value)
        break
else:
    out("all")
for index, value in enumerate(values):
    total -= index * value
for key, val in {"x": a, "y": b}.items():
    total += val
out(total, value, index)
""", a=(-3, 12), b=(-3, 12))

script("functions", """
a = inp("a")
b = inp("b")
log = []
def f(x, y=5, *rest, k=7, **more):
    log.append((x, y, rest, k, more))
    return x - y + k
def g(x, y):
    if x > y:
        return x
    elif x == y:
        return
    log.append(x)
def h(*args, **kwargs):
    return f(*args, **kwargs)
r = [f(a), f(a, b), f(a, b, 1, a), f(a, k=b), f(a, y=b, z=1), f(*[a, b]),
     f(a, **{"k": b}), f(y=a, x=b), h(a, b, 2, k=a, w=b), g(a, b), g(b, a)]
t = lambda x, y=b: x * 2 - y
out(r, log, t(a), t(a, 1), (lambda: a)())
""")

script("recursion", """
n = inp("n")
a = inp("a")
def fact(n):
    if n <= 1:
        return a
    return n * fact(n - 1)
def even(n):
    return True if n == 0 else odd(n - 1)
def odd(n):
    return False if n == 0 else even(n - 1)
out(fact(n), even(n))
""", n=(0, 4), a=(1000, 3000))

script("closures", """
a = inp("a")
b = inp("b")
count = 0
def counter(start):
    value = start
    def step(delta=1):
        nonlocal value
        global count
        value += delta
        count = count + 1
        return value
    return step
x = counter(a)
y = counter(b)
r = [x(), y(b), x(a), y()]
fs = [lambda v, i=i: v + i for i in range(3)]
out(r, count, [f(a) for f in fs])
""")

script("exceptions", """
a = inp("a")
b = inp("b")
class Mine(Exception):
    pass
def risky(x):
    if x == 0:
        raise ValueError("zero", x)
    if x == 1:
        raise Mine(x)
    if x == 2:
        return [][x]
    return 10 // (x - 3)
def attempt(x):
    try:
        r = risky(x)
    except ValueError as exc:
        out("value", exc.args)
        return -1
    except (IndexError, Mine) as exc:
        out("other", type(exc).__name__)
        r = -2
    else:
        out("else", r)
    finally:
        out("finally", x)
    return r
out(attempt(a))
out(attempt(b))
risky(a)
out("end")
""", a=(-1, 4), b=(-1, 4))

script("nested_try", """
a = inp("a")
b = inp("b")
def f():
    try:
        try:
            out(10 // a)
        except ZeroDivisionError:
            out("inner")
            if b > 0:
                raise KeyError(b)
            out("handled")
        finally:
            out("cleanup")
            if b == 3:
                return "swallowed"
    except KeyError as exc:
        out("outer", exc.args[0])
        try:
            raise TypeError("chained") from exc
        except TypeError as other:
            out(type(other.__cause__).__name__)
    return "end"
for i in range(2):
    try:
        if i == a:
            continue
        if b == i:
            break
        out("body", i)
    finally:
        out("after", i)
out(f())
""", a=(0, 2), b=(0, 4))

script("changed_return", """
a = inp("a")
def late(x):
    values = [x]
    try:
        return values
    finally:
        values.append(a)
def managed(x):
    values = {"x": x}
    class Manager(object):
        def __enter__(self):
            return values
        def __exit__(self, *args):
            values["end"] = a
    with Manager() as v:
        return v
def twice(x):
    values = [x]
    for i in range(2):
        try:
            return values
        finally:
            values.append(i)
            if i == a:
                continue
out(late(1))
out(managed(2))
out(twice(3))
""", a=(-1, 2))

script("propagation", """
a = inp("a")
def deep(n):
    if n == a:
        raise LookupError(n)
    if n == 0:
        return 0
    return deep(n - 1) + 1
def middle(n):
    values = [deep(n), n]
    return values
try:
    out(middle(3))
except LookupError as exc:
    out("caught", exc.args)
out({"k": deep(2)}, [deep(i) for i in (0, 1)])
""", a=(-1, 4))

script("reraise", """
a = inp("a")
def f(x):
    try:
        return 5 // x
    except ZeroDivisionError:
        out("log")
        raise
try:
    out(f(a))
except Exception as exc:
    out(type(exc).__name__)
try:
    f(a - 1)
except ArithmeticError:
    out("arithmetic")
assert a != 2, "two"
out("done")
""", a=(0, 3))

script("collections", """
a = inp("a")
b = inp("b")
l = [a, b, [a + 1, (b,)]]
t = (a, b, a)
d = {"x": a, "y": {"z": b}, 3: [b]}
s = {a, b, 1}
l[0] = b
l[-1][0] += 5
l.append(t)
d["x"] = l
d["y"]["z"] -= 1
d["n"] = t[1:] + t[:1]
del d[3]
l2 = l
l2[1:2] = [7, a]
out(l, t, d, s, l2 is l, len(s), t[-1], l[::2])
""", a=BIG, b=BIG)

script("indexing", """
i = inp("i")
j = inp("j")
l = [10, 20, 30, 40]
l[i] = l[j]
l[j] += 1
m = [[1, 2], [3, 4]]
m[i % 2][j % 2] = 9
d = {0: "zero", 1: "one", 2: "two"}
d[i] = d.get(j, "none")
try:
    out(d[j + 2])
except KeyError as exc:
    out("missing", exc.args)
out(l, m, d, l[-i], l[i:j], i in d, j in l)
""", i=(0, 3), j=(0, 3))

script("unpacking", """
a = inp("a")
b = inp("b")
x, y = a, b
x, y = y, x
(p, q), r = (a, b), a + b
first, *rest = [a, b, 3, 4]
*init, last = (a, b, 5)
m, *n, o = "wxyz"
u = v = [a]
l = [0, 0]
l[0], l[1] = b, a
for i, (j, k) in [(a, (b, 1)), (2, (3, a))]:
    out(i, j, k)
for h, *g in [[a, b, 1], (2, 3)]:
    out(h, g)
out(x, y, p, q, r, first, rest, init, last, m, n, o, u is v, l)
""")

script("comprehensions", """
a = inp("a")
b = inp("b")
values = [a, b, 3]
l = [v * 2 for v in values if v > 0]
l2 = [(v, w) for v in values if v != 3 for w in (1, b) if w < v]
d = {i: v for i, v in enumerate(values) if v != b}
s = {v % 3 for v in values}
g = list(v + 1 for v in values if v)
n = [[w for w in (v, 1)] for v in values]
out(l, l2, d, s, g, n, sum(v for v in values), any(v > 2 for v in values))
""", a=(-2, 5), b=(-2, 5))

script("generators", """
a = inp("a")
b = inp("b")
def gen(n):
    out("start")
    i = 0
    while i < n:
        got = yield i + a
        if got:
            out("got", got)
        i += 1
    return n
def outer(n):
    r = yield from gen(n)
    yield ("total", r)
out(list(outer(b)))
g = gen(3)
out(next(g), g.send(b), next(g))
try:
    next(g)
except StopIteration as exc:
    out("stopped", exc.value)
for v in gen(b):
    if v > 1002:
        break
    out(v)
first, second = gen(2)
out(first, second, max(gen(3)))
""", a=(1000, 1003), b=(0, 3))

script("classes", """
a = inp("a")
b = inp("b")
class Base(object):
    shared = a
    def __init__(self, x):
        self.x = x
    def value(self, extra=0):
        return self.x + extra
    def __repr__(self):
        return "Base"
class Derived(Base):
    def __init__(self, x, y):
        Base.__init__(self, x)
        self.y = y
    def value(self, extra=1):
        self.x += extra
        return super(Derived, self).value(extra) * self.y
    @staticmethod
    def fixed(v):
        return v + 1
    @classmethod
    def make(cls, v):
        return cls(v, v)
o = Base(a)
p = Derived(a, b)
o.x -= b
p.z = o
p.z.x = p.z.x + 1
Base.shared = b
out(o.x, o.value(), o.value(b), p.value(), p.value(extra=a), p.z.x, p.shared,
    Derived.fixed(a), Derived.make(b).value(), repr(o), str(p))
""", a=(1000, 5000), b=(1000, 5000))

script("operators", """
a = inp("a")
b = inp("b")
class V(object):
    def __init__(self, x):
        self.x = x
    def __add__(self, other):
        return V(self.x + other.x)
    def __radd__(self, other):
        return V(other - self.x)
    def __iadd__(self, other):
        self.x += other
        return self
    def __eq__(self, other):
        return self.x == other.x
    def __lt__(self, other):
        out("lt")
        return self.x < other.x
    def __getitem__(self, key):
        return self.x * key
    def __setitem__(self, key, value):
        self.x = key - value
    def __contains__(self, item):
        return item == self.x
    def __len__(self):
        return 3
    def __bool__(self):
        out("bool")
        return True if self.x > 0 else False
    def __call__(self, y, z=2):
        return self.x - y * z
    def __getattr__(self, name):
        return name + "?"
    def __neg__(self):
        return V(-self.x)
v = V(a)
w = V(b)
u = v + w
t = 5 + v
v += b
w[3] = a
out(u.x, t.x, v.x, w.x, v == w, v < w, v[2], a in v, len(v), v(b), v(b, z=a),
    v.other, (-v).x)
if v:
    out("true")
out(v is not w and v, not w, [x for x in (v, w) if x == v])
""", a=(1000, 5000), b=(1000, 5000))

script("iterators", """
a = inp("a")
n = inp("n")
class Count(object):
    def __init__(self, n):
        self.n = n
        self.i = 0
    def __iter__(self):
        out("iter")
        return self
    def __next__(self):
        if self.i >= self.n:
            raise StopIteration
        self.i += 1
        return self.i + a
total = 0
for v in Count(n):
    total += v
out(total, list(Count(n)), [v for v in Count(n) if v != 1002])
it = iter([a, n])
out(next(it), next(it), next(it, "none"))
for x in zip([a, 1], (n, 2)):
    out(x)
out(sorted([n, 2, 1], key=lambda v: -v), list(map(lambda v: v + a, [n, 1])))
""", a=(1000, 1002), n=(0, 3))

script("with", """
a = inp("a")
class Manager(object):
    def __init__(self, name, value):
        self.name = name
        self.value = value
    def __enter__(self):
        out("enter", self.name)
        if a == 2:
            raise ValueError("enter")
        return self.value
    def __exit__(self, typ, value, tb):
        out("exit", self.name, typ and typ.__name__)
        return False
def f():
    with Manager("one", a) as x, Manager("two", a + 1) as y:
        out(x, y)
        if a == 1:
            return "early"
        10 // a
    return "end"
try:
    out(f())
except (ZeroDivisionError, ValueError) as exc:
    out(type(exc).__name__)
for i in range(2):
    with Manager("loop", i) as z:
        if a == 3:
            continue
    out(z)
""", a=(0, 4))

script("decorators", """
a = inp("a")
calls = []
def trace(func):
    def inner(*args, **kwargs):
        calls.append((func.__name__, args))
        return func(*args, **kwargs) + 1
    return inner
def times(n):
    def dec(func):
        def inner(x):
            return [func(x) for _ in range(n)]
        return inner
    return dec
@trace
def f(x, y=2):
    return x - y
@times(2)
@trace
def g(x):
    return x * 2
out(f(a), f(a, y=a), g(a), calls)
""", a=(1000, 5000))

script("strings", """
a = inp("a")
b = inp("b")
s = "v%d" % a
t = "{}-{b}".format(a, b=b)
u = f"{a}/{b + 1}/{'x'!r}"
w = "a" + str(a) + "b" * 3
print(a, "and", b, sep="|")
print("x%sy" % (a,), end="!")
out(s, t, u, w, w[0], ",".join([s, t]), s.upper(), "b" in w)
""", a=(0, 9), b=(0, 9))

script("scopes", """
a = inp("a")
x = a
def f():
    x = 5
    def g():
        return x + a
    return g()
def h():
    global x
    x = x + 1
    y = x
    return y
class C(object):
    x = a + 10
    y = x
def k(a):
    a = a + 1
    return a
out(f(), h(), x, C.x, C.y, k(a), a)
del x
try:
    out(x)
except NameError:
    out("deleted")
import math as m
from math import floor, sqrt as root
out(m.floor(2.5), floor(3.5), root(4.0))
""", a=(1000, 5000))

script("augment", """
a = inp("a")
b = inp("b")
x = a
x += b
x -= 1
x *= 2
x //= 3
x %= 1000
l = [a]
m = l
l += [b]
l *= 2
d = {"k": [a]}
d["k"] += [b]
d["k"][0] -= b
class O(object):
    pass
o = O()
o.v = a
o.v += b
o.l = m
o.l += (1,)
def key():
    out("key")
    return "k"
d[key()] += [3]
s = "a"
s += "b"
out(x, l, m is l, d, o.v, o.l, s)
""", a=(1000, 5000), b=(1000, 5000))

script("order", """
a = inp("a")
def e(x):
    out("eval", x)
    return x
l = [e(0), e(a), e(2)]
d = {e("k"): e(1), e("j"): e(a)}
r = e(l)[e(1)] + e(a) * e(3)
e(l)[e(0)] = e(9)
c = e(1) < e(a) < e(3)
t = (e(a) if e(a) > 2 else e(7), e(8))
def f(x, y, *z, **k):
    return x
f(e(1), *e([2, a]), y2=e(4), **e({"w": a}))
out(l, d, r, c, t)
""", a=(0, 4))

script("match", """
a = inp("a")
b = inp("b")
def kind(v):
    match v:
        case 1 | 2:
            return "low"
        case int(x) if x > 3:
            return x + 1
        case [1, y]:
            return y
        case (x, *rest):
            return [x, rest]
        case {"k": z}:
            return z
        case _:
            return "other"
out(kind(a), kind([1, b]), kind((a, b, 3)), kind({"k": b}), kind("s"))
if (n := a + 1) > 3:
    out(n)
out(n)
""", a=(0, 6), b=(1000, 5000))

script("raise_out", """
a = inp("a")
def f(x):
    out("in", x)
    if x > 2:
        raise RuntimeError("bad", x)
    return x
y = f(a)
z = [f(y + 1), f(y + 2)]
out(z)
""", a=(-1, 4))

script("sharing", """
a = inp("a")
b = inp("b")
shared = [a]
def change(l, v):
    l.append(v)
    l = [v]
    return l
def default(v, acc=[]):
    acc.append(v)
    return acc
r = change(shared, b)
x = default(a)
y = default(b)
nest = [shared, shared]
nest[0].append(1)
z = nest[1][-1]
if a > b:
    alias = shared
else:
    alias = r
alias.append(2)
out(shared, r, x is y, y, nest, z, alias)
""", a=(1000, 5000), b=(1000, 5000))

script("async", """
import asyncio
a = inp("a")
async def child(x):
    if x > 1002:
        raise ValueError(x)
    return x + 1
async def main():
    try:
        r = await child(a)
        r = await child(r)
    except ValueError as exc:
        out("error", exc.args)
        return -1
    return r
out(asyncio.run(main()))
""", a=(1000, 1004))

script("class_forms", """
a = inp("a")
made = []
def make(base):
    class Local(base):
        "doc"
        v = a
        class Inner(object):
            w = a + 1
        def get(self, x=3, /, y=4):
            "get doc"
            return super().get() + x + y + self.v
    return Local
class Base(object):
    def __init_subclass__(cls):
        made.append(cls.__name__)
    def get(self):
        return a * 2
    @property
    def half(self):
        return a // 2
    @half.setter
    def half(self, value):
        made.append(value)
class Meta(type):
    def __new__(mcs, name, bases, space):
        made.append(name)
        return type.__new__(mcs, name, bases, space)
class Other(metaclass=Meta):
    k = a
Local = make(Base)
o = Local()
o.half = a
out(o.get(), o.get(1), o.get(1, y=2), o.half, Local.Inner.w, Local.__doc__,
    Local.get.__doc__, made, Other.k)
""", a=(1000, 5000))

script("enums", """
from enum import Enum
from collections import namedtuple
a = inp("a")
class Color(Enum):
    RED = 1
    BLUE = 2
    def mix(self, v):
        return self.value + v
P = namedtuple("P", "x y")
p = P(a, y=2)
out(Color.RED.mix(a), Color(2).name, p.x, p._replace(y=a), list(Color)[0].name)
""", a=(1000, 5000))

script("frames", """
a = inp("a")
def f(x):
    y = x + a
    exec("z = 1")
    return sorted(locals()), dir(), eval("x + y")
out(f(a), eval("a + 1"))
exec("q = a + 5")
out(q)
weakref = a
def g():
    global weakref
    weakref = weakref + 1
    return weakref
out(g(), weakref)
""", a=(1000, 5000))

script("displays", """
a = inp("a")
b = inp("b")
def l():
    out("l")
    return [a, b]
d = {"x": a}
out([*l(), 5], (*l(),), {*l()}, {**d, "y": b, **{"z": a}}, [*d, *range(2)])
out(dict(x=b, **{"w": a}), {a: 1, "k": [b]})
s = {-1, b}
out(s)
""", a=(1000, 2000), b=(3000, 5000))

script("reraise_if", """
a = inp("a")
def f(x):
    try:
        return 10 // x
    except ZeroDivisionError as exc:
        if a > 3:
            out("again")
            if a > 5:
                raise
            elif a == 4:
                raise ValueError(a)
        else:
            out("swallow")
            return exc.args
    except:
        out("never")
for v in (1, 0):
    try:
        out(f(v))
    except Exception as exc:
        out(type(exc).__name__, exc.args)
def g():
    if a % 2:
        raise KeyboardInterrupt(a)
try:
    g()
except:
    out("bare")
""", a=(0, 7))

script("unpack_sets", """
a = inp("a")
class Items(object):
    def __iter__(self):
        out("iter")
        return iter([a, 2])
x, y = Items()
out(x, y)
d = {0: a, 7: 1}
d.pop(0)
d[8] = a
z, w = d
out(z, w)
p, q = {0, 1}
out(p + q)
t, u = (v + a for v in (1, 2))
out(t, u)
""", a=(1000, 5000))

script("recursive_implicit", """
a = inp("a")
class V(object):
    def __init__(self, x, inner=None):
        self.x = x
        self.inner = inner
    def __eq__(self, other):
        if self.inner is None:
            return self.x == other.x
        return self.inner == other.inner
    def __add__(self, other):
        if self.inner is None:
            return V(self.x + other.x)
        return V(1, self.inner + other.inner)
def f(n):
    if n > 10:
        return n
    t = 0
    for v in map(f, [n + 10, n + 11]):
        t += v
    return t
p = V(1, V(a))
q = V(1, V(3))
r = p + q
out(f(2), p == q, r.inner.x)
""", a=(0, 5))

script("failed_argument", """
a = inp("a")
def g(v):
    try:
        len(6 // v)
    except ZeroDivisionError:
        return "fine"
    except TypeError:
        return v
def h(x, y):
    return x, y
def bad(v):
    if v == 1:
        raise ValueError(v)
    return v
def caller(v):
    try:
        return h(v, h(bad(v), 2))
    except ValueError as exc:
        return exc.args
out(g(a), h(g(a), caller(a)), caller(a))
""", a=(0, 3))

script("keyword_names", """
a = inp("a")
def g(self=1, future=2, **k):
    return self, future, sorted(k.items())
def h(activation, code_id=3, function=None):
    return activation, code_id, function
out(g(self=a, future=4, args=3, code=1, func=2))
out(h(activation=a), h(code_id=a, activation=2, function=1))
out(dict(self=a, mode=1, name=2))
""", a=(1000, 5000))

script("operators_below", """
a = inp("a")
class V(object):
    def __init__(self, x):
        self.x = x
    def __lt__(self, other):
        return self.x < other.x
    def __iter__(self):
        yield self.x
        yield 1
    def __enter__(self):
        return self.x
    def __exit__(self, *args):
        return args[0] is ValueError
def g(x):
    return [y + x for y in (1, a)]
def gen(n):
    for i in range(n):
        yield g(i)
def f(v, w):
    g(2)
    with v as k:
        x, y = w
        if k > 2:
            raise ValueError(x)
        return v < w, x, y
    return list(gen(2)), sorted([v, w])[0].x
out(f(V(a), V(2)))
""", a=(0, 4))

script("slots", """
import pathlib
a = inp("a")
class P(object):
    __slots__ = ("x",)
    def __init__(self, x):
        self.x = x
    def get(self):
        return self.x
class Q(P):
    __slots__ = ("y",)
    def total(self):
        return self.x + self.y
p = P(a)
q = Q(1)
q.y = a
out(p.x, p.get(), q.total(), q.get(), q.x, q.y)
try:
    q.z
except AttributeError as exc:
    out("absent")
try:
    q.z = 1
except AttributeError as exc:
    out("refused")
path = pathlib.Path("x.txt")
out(path.name, path.suffix, str(path.with_suffix(".b")))
""", a=(0, 4))

script("accessors", """
a = inp("a")
class Meta(type):
    def __getattr__(cls, name):
        out("Meta", name)
        raise AttributeError(name)
class Item(object, metaclass=Meta):
    def __getattr__(self, name):
        out("Item", name)
        raise AttributeError(name)
class C(object):
    item = Item()
    kind = Item
    def __init__(self):
        self.own = Item()
c = C()
C.item, C.kind, c.item, c.kind, c.own
c.value = a
out(c.value, hasattr(c, "other"), hasattr(C.item, "other"))
""", a=(0, 4))

QUIRKS = {}


def quirk(name, what, code, **inputs):
    QUIRKS[name] = (what, code.strip("\n") + "\n", inputs or {
        "a": (1000, 2000)})


quirk("class_comprehension",
      "a comprehension in the body of a class uses the activation of the "
      "enclosing scope (class C: z = [x for x in (1, 2)] raises IndexError)",
      """
a = inp("a")
class C(object):
    z = [x + a for x in (1, 2)]
out(C.z)
""")

quirk("class_ifexp",
      "a conditional expression in the body of a class uses the names and the "
      "activation of the enclosing scope (class C: y = 1; x = y if y else 2 "
      "raises an exception)",
      """
a = inp("a")
class C(object):
    y = a
    x = y if y else 2
out(C.x)
""")

quirk("ifexp_yield",
      "a yield inside of a conditional expression is not a yield of the "
      "function",
      """
a = inp("a")
def f():
    x = (yield a) if a else 2
    yield 3
out(list(f()))
""")

quirk("name_mangling",
      "private names of classes are not mangled (self.__x is stored as __x)",
      """
a = inp("a")
class C(object):
    def __init__(self):
        self.__x = a
out(sorted(C().__dict__))
""")

quirk("default_twice",
      "default values of parameters are evaluated twice "
      "(def f(x=d()) calls d twice)",
      """
a = inp("a")
def d():
    out("default")
    return a
def f(x=d()):
    return x
out(f())
""")

quirk("signature",
      "inspect.signature shows the parameters that noWorkflow adds to "
      "functions", """
import inspect
def f(a, b=2):
    return a
out(str(inspect.signature(f)))
""")

quirk("generator_close",
      "a generator abandoned by a for loop is not closed at the end of the "
      "loop", """
a = inp("a")
def g():
    try:
        yield a
        yield 2
    finally:
        out("closed")
for x in g():
    break
out("end")
""")

quirk("async_for",
      "async for over an async generator of the script raises IndexError",
      """
import asyncio
a = inp("a")
async def items():
    yield a
async def main():
    result = []
    async for v in items():
        result.append(v)
    return result
out(asyncio.run(main()))
""")

quirk("if_context",
      "exceptions raised inside of an if have ConditionException as context",
      """
a = inp("a")
try:
    if a:
        raise ValueError(a)
except ValueError as exc:
    out(exc.__context__ is None)
""")

quirk("base_twice",
      "expressions in the list of bases of a class are evaluated twice",
      """
a = inp("a")
def base():
    out("base")
    return object
class C(base()):
    v = a
out(C.v)
""")

quirk("repr_effects",
      "__repr__ of the script is executed to record its values", """
a = inp("a")
class V(object):
    def __repr__(self):
        out("repr")
        return "V"
v = V()
out(a)
""")

quirk("caller_module",
      "functions that look at the frame of their caller find the collector "
      "(classes created by namedtuple are not of the module of the script)",
      """
from collections import namedtuple
a = inp("a")
P = namedtuple("P", "x")
out(P(a).x, P.__module__)
""")
