"""Scripts for the checks of recorded dependencies"""
from harness.scripts import SCRIPTS

FLOWS = dict(SCRIPTS)
for name in ("async", "frames", "match", "class_forms"):
    del FLOWS[name]     # see QUIRK_FLOWS

# Components of these scripts with influences that are known to be lost
EXCEPTION, MUTATION, SEND, PROTOCOL = (
    "T02-exception-value", "T02-native-mutation", "T02-sent-value",
    "T02-implicit-protocol")
KNOWN = {
    "while": [("T02-jump", ("total", "out(i, total)"))],
    "changed_return": [(MUTATION, ("values", "out(", "late(1)", "managed(2)",
                                   "twice(3)", "v"))],
    "augment": [(MUTATION, ("m", "o.l", "out(x, l"))],
    "decorators": [(MUTATION, ("calls", "out(f(a)"))],
    "functions": [(MUTATION, ("log", "out("))],
    "sharing": [(MUTATION, ("acc", "out(", "r", "y", "x", "nest", "alias",
                            "shared", "l", "z"))],
    "exceptions": [(EXCEPTION, ("exc", "exc.args", "out(", "type(exc)"))],
    "nested_try": [(EXCEPTION, ("exc", "exc.args", "out(", "other"))],
    "propagation": [(EXCEPTION, ("exc", "exc.args", "out(\"caught\""))],
    "reraise_if": [(EXCEPTION, ("exc", "out(", "__now_exception__"))],
    "indexing": [(EXCEPTION, ("exc", "exc.args", "out(\"missing\""))],
    "with": [(EXCEPTION, ("typ", "out(\"exit\"", "exc"))],
    "generators": [(SEND, ("got", "out(\"got\"")),
                   (EXCEPTION, ("exc", "out(\"stopped\""))],
    "iterators": [(PROTOCOL, ("v", "total", "out(total", "it",
                              "list(Count(n))"))],
    "operators": [(PROTOCOL, ("self", "self.x", "out("))],
    "operators_below": [(PROTOCOL, ("other", "out("))],
    "unpack_sets": [(PROTOCOL, ("x", "y", "out(x, y)", "z", "w",
                                "out(z, w)"))],
}


FLOW = {}


def flow(name, code, **inputs):
    FLOWS[name] = (code.strip("\n") + "\n", inputs or {
        "a": (1000, 5000), "b": (1000, 5000)})


flow("chain", """
a = inp("a")
b = inp("b")
x = a
y = x + 1
z = y
out(z)
x = b
out(x, z)
t = u = x
out(t)
out(u)
del x
x = 3
out(x)
""")

flow("parameters", """
a = inp("a")
b = inp("b")
def f(p, q=b, *args, k=a, **kw):
    out(p)
    out(q)
    out(args)
    out(k)
    out(kw)
    return p
out(f(1))
out(f(a))
out(f(1, 2, b))
out(f(p=1, q=a, k=2, z=b))
out(f(*[1, a], **{"w": b}))
out(f(1, 2, b, a))
out(f(1, w=b, z=a))
out(f(**{"p": a, "q": 4}))
def h(p, q):
    out(p)
    out(q)
h(*[a, b])
h(*[1], **{"q": a})
g = lambda v, w=a: v + 1
out(g(b))
out(g(1))
""")

flow("returns", """
a = inp("a")
b = inp("b")
def early(x):
    if x > 2000:
        return x
    return 7
def nothing(x):
    y = x
def nested(x):
    def inner():
        return x
    return inner
out(early(a))
out(nothing(a))
out(nested(b)())
h = nested(a)
out(h())
out(early(early(b)))
""")

flow("control", """
a = inp("a")
b = inp("b")
x = 0
if a > 2000:
    x = 1
else:
    x = 2
out(x)
while b > 4990:
    x = 5
    b = b - 3
    if x == 5:
        y = 9
        out(y)
out(b)
for i in range(2):
    if a == 1500:
        z = i
    else:
        z = -1
    out(z)
w = 1 if a > b else 2
out(w)
out(a > 3000 and b)
""", a=(1000, 5000), b=(4985, 4999))

flow("containers", """
a = inp("a")
b = inp("b")
l = [1, a, [b, 2]]
out(l[1])
out(l[2][0])
out(l[0:2])
d = {"x": a, "y": {"z": b}}
out(d["x"])
out(d["y"]["z"])
d["n"] = b
out(d["n"])
l[0] = b
out(l[0])
t = (a, (b, 3))
(p, (q, r)) = t
out(p)
out(q)
first, *rest = l
out(first)
out(rest)
s = {a, 7}
out(s)
m = [l, l]
m[0][0] = a
out(l[0])
out(m[1][0])
""")

flow("attributes", """
a = inp("a")
b = inp("b")
class P(object):
    k = a
    def __init__(self, v):
        self.v = v
        self.w = [v]
    def get(self):
        return self.v
    def put(self, v):
        self.v = v
        return self
p = P(a)
q = p
out(p.v)
out(p.k)
out(p.get())
p.put(b)
out(q.v)
out(q.get())
p.w[0] = b
out(p.w[0])
q.z = a
out(p.z)
del q.z
P.k = b
out(p.k)
""")

flow("text", """
a = inp("a")
b = inp("b")
s = "v%d" % a
out(s)
out("{} {}".format(b, 1))
out(f"{a}!")
n = "-".join([s, "x"])
out(n)
out(len([a, b]) + b)
out(max(a, b))
out(str(a) + s)
""")

flow("comps", """
a = inp("a")
b = inp("b")
out([v for v in [a, 1]])
out([v + 1 for v in (1, 2) if b > 2000])
out({v: b for v in [1]})
out({v for v in [a]})
g = (v for v in [a, b])
out(list(g))
out(sum(x * y for x in [a] for y in [b]))
out([[w for w in v] for v in [[a], [2]]])
out([x for x, y in [(a, b)]])
""")

flow("loops", """
a = inp("a")
b = inp("b")
total = 0
for v in [a, 1]:
    total += v
    out(v)
out(total)
for i, v in enumerate([b, 2]):
    out(v)
for k, v in {"k": a}.items():
    out(v)
for x, (y, z) in [(a, (b, 1))]:
    out(x)
    out(y)
n = 0
while n < 2:
    n += 1
    prev = total
    total = n
    out(prev)
for v in (a,):
    pass
out(v)
""")

flow("globals", """
a = inp("a")
b = inp("b")
state = a
def read():
    return state
def write(v):
    global state
    state = v
def counter():
    n = b
    def inc(by):
        nonlocal n
        n = n + by
        return n
    return inc
out(read())
c = counter()
out(c(a))
""")

flow("finals", """
a = inp("a")
b = inp("b")
def f(x):
    try:
        y = x
        return y
    finally:
        out(x)
out(f(a))
class M(object):
    def __enter__(self):
        return b
    def __exit__(self, *exc):
        return False
with M() as m:
    out(m)
try:
    z = b
except ValueError:
    z = 1
else:
    z = z + a
out(z)
assert a != 7, b
""")


QUIRK_FLOWS = {}


def quirk(name, what, code, source="a", **inputs):
    QUIRK_FLOWS[name] = (what, code.strip("\n") + "\n", inputs or {
        "a": (1000, 5000)}, source)


quirk("exception-value", "the value bound by an except clause depends on "
      "nothing", """
a = inp("a")
try:
    raise KeyError(a)
except KeyError as exc:
    out(exc.args[0])
""")
quirk("comprehension-scope", "a variable with the name of the target of a "
      "comprehension depends on the items after it", """
a = inp("a")
x = a
y = [x for x in (1, 2)]
out(x)
""")
quirk("native-mutation", "a collection does not depend on the values that "
      "its native methods put into it", """
a = inp("a")
l = []
l.append(a)
out(l[0])
""")
quirk("sent-value", "the value of a yield expression does not depend on the "
      "value that was sent", """
a = inp("a")
def gen():
    got = yield 1
    out(got)
    yield 2
g = gen()
next(g)
g.send(a)
""")
quirk("implicit-protocol", "values given by __iter__ and __next__ methods of "
      "the script to a loop depend on nothing", """
a = inp("a")
class Once(object):
    done = False
    def __iter__(self):
        return self
    def __next__(self):
        if self.done:
            raise StopIteration
        self.done = True
        return a
for v in Once():
    out(v)
""")
quirk("match-capture", "names bound by patterns of match statements depend on "
      "nothing", """
a = inp("a")
match [a, 1]:
    case [x, y]:
        out(x)
""")
quirk("jump", "values computed after a conditional continue, break, return "
      "or raise do not depend on its condition", """
a = inp("a")
total = 0
for i in range(2):
    if i == a:
        continue
    total = 5 + i
    last = i
out(last)
""", a=(0, 3))
quirk("global-write", "reading a global or nonlocal variable does not depend "
      "on the value that an inner function assigned to it", """
a = inp("a")
state = 1
def write():
    global state
    state = a
write()
out(state)
""")
quirk("dynamic-code", "names defined by exec depend on nothing", """
a = inp("a")
exec("q = a + 1")
out(q)
""")
