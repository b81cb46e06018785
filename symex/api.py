"""Harness registry and concrete execution mode"""
from __future__ import annotations

HARNESSES = {}   # property -> list of Task


class Task(object):

    def __init__(self, prop, name, func, params, budget, bounds, kwargs):
        self.prop = prop
        self.name = name
        self.func = func
        self.params = params
        self.budget = budget      # (quick seconds, thorough seconds)
        self.bounds = bounds
        self.kwargs = kwargs      # tiers, max_paths, samples...

    @property
    def key(self):
        return self.name

    def __call__(self, sx):
        return self.func(sx, **self.params)


def harness(prop, name=None, params=None, budget=(60, 400), bounds="",
            tiers=("quick", "thorough"), **kwargs):
    """Register harness for a property

    params: list of (suffix, dict) or (suffix, dict, extra) to split the harness in tasks
    """
    def dec(func):
        base = name or func.__name__
        for item in (params or [("", {})]):
            suffix, values = item[0], item[1]
            extra = dict(kwargs)
            ttiers = tiers
            if len(item) > 2:
                extra.update(item[2])
                ttiers = extra.pop("tiers", tiers)
            full = base + ("[" + suffix + "]" if suffix else "")
            extra["tiers"] = ttiers
            tasks = HARNESSES.setdefault(prop, [])
            if any(t.name == full for t in tasks):
                raise ValueError("duplicate task " + full)
            tasks.append(Task(prop, full, func, values, extra.pop("budget", budget),
                              extra.pop("bounds", bounds) or (func.__doc__ or "").strip(), extra))
        return func
    return dec


class SkipRun(Exception):
    """Assumption does not hold in concrete run"""


class Cx(object):
    """Concrete counterpart of core.Sx: runs the real code, as installed"""

    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.failures = []
        self.checks = 0
        self.observations = []
        self.reached = {}
        self.pending = []
        self.stdout = None
        self.repr_mode = "token"
        self.small_values = None

    def int(self, name, low, high):
        return self.inputs.get(name, low)

    def real(self, name, low, high):
        val = self.inputs.get(name, 4 * low)
        return val / 4.0

    def bool(self, name):
        return self.inputs.get(name, False)

    def str(self, name, alphabet, minlen, maxlen):
        return self.inputs.get(name, sorted(alphabet)[0] * minlen)

    def bytes(self, name, alphabet, minlen, maxlen):
        return self.str(name, alphabet, minlen, maxlen).encode("latin-1")

    def choose(self, name, options):
        return list(options)[self.inputs.get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise SkipRun()

    def check(self, cond, label, known=None, **info):
        self.checks += 1
        if cond:
            return True
        for kid, region in (known or []):
            if region:
                self.failures.append((label + "#" + kid, _info(info)))
                return False
        self.failures.append((label, _info(info)))
        return False

    def possible(self, cond):
        return None

    def observe(self, name, value):
        self.observations.append((name, value))

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def eq(self, left, right):
        return left == right

    def bag_eq(self, left, right):
        left, right = list(left), list(right)
        if len(left) != len(right):
            return False
        for item in left:
            if item in right:
                right.remove(item)
            else:
                return False
        return True

    def and_(self, *values):
        return all(values)

    def or_(self, *values):
        return any(values)

    def not_(self, value):
        return not value

    def implies(self, left, right):
        return (not left) or bool(right)

    def ite(self, cond, left, right):
        return left if cond else right

    def sum(self, values):
        total = 0
        for value in values:
            total = total + value
        return total

    def concretize(self, value):
        return value

    def concretize_deep(self, value):
        return value

    def cleanup(self, func):
        self.pending.append(func)


def _info(info):
    result = {}
    for key, value in info.items():
        try:
            result[key] = repr(value)[:2000]
        except Exception as exc:  # pragma: no cover
            result[key] = "<%r>" % exc
    return result


def run_concrete(task, inputs):
    """Run harness with concrete inputs against the real code"""
    import traceback
    cx = Cx(inputs)
    result = {"failures": [], "skipped": False, "observations": [],
              "checks": 0}
    try:
        try:
            task(cx)
        finally:
            for cleanup in reversed(cx.pending):
                cleanup()
    except SkipRun:
        result["skipped"] = True
    except Exception as exc:
        cx.failures.append(("unexpected-exception:" + type(exc).__name__,
                            {"traceback": traceback.format_exc()[-3000:]}))
    result["failures"] = cx.failures
    result["checks"] = cx.checks
    result["reached"] = cx.reached
    result["observations"] = [(n, canon(v)) for n, v in cx.observations]
    return result


def canon(value):
    """Canonical text of observed value, equal in both modes"""
    if isinstance(value, bool):
        return repr(value)
    if isinstance(value, float) and value == int(value):
        return repr(int(value))
    if isinstance(value, (list, tuple)):
        return "[" + ", ".join(canon(v) for v in value) + "]"
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(canon(v) for v in value)) + "}"
    if isinstance(value, dict):
        return "{" + ", ".join(sorted(
            canon(k) + ": " + canon(v) for k, v in value.items())) + "}"
    return repr(value)
