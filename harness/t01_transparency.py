"""T01: the collection does not change what a script computes"""
from symex.api import harness
from symex import trial

from harness.scripts import SCRIPTS, QUIRKS


def inputs(sx, spec):
    values = {name: sx.int(name, low, high)
              for name, (low, high) in sorted(spec.items())}
    return lambda name: values[name]


def compare(sx, expected, found, names=True):
    sx.check(trial.same(sx, expected.out, found.out),
             "values reported by the script", plain=expected.out,
             captured=found.out)
    sx.check(trial.same(sx, trial.snapshot(expected.text),
                        trial.snapshot(found.text)), "printed text",
             plain=expected.text, captured=found.text)
    sx.check(trial.same(sx, expected.error, found.error),
             "exception that leaves the script", plain=expected.error,
             captured=found.error)
    if not names:
        return
    hidden = {"__sx__", "__builtins__", "__now_activation__"}
    left = {k: trial.snapshot(v) for k, v in expected.namespace.items()
            if k not in hidden}
    right = {k: trial.snapshot(v) for k, v in found.namespace.items()
             if k in left}
    sx.check(sorted(left) == sorted(right), "variables of the script",
             plain=sorted(left), captured=sorted(right))
    for key in sorted(left):
        sx.check(trial.same(sx, left[key], right.get(key)),
                 "final value of " + key, plain=left[key],
                 captured=right.get(key))


@harness("T01", params=[(name, {"name": name}) for name in sorted(SCRIPTS)],
         budget=(25, 200))
def script(sx, name):
    """The script gives the same results with and without the collection"""
    code, spec = SCRIPTS[name]
    inp = inputs(sx, spec)
    expected = trial.plain(sx, code, inp=inp)
    found = trial.capture(sx, code, inp=inp)
    compare(sx, expected, found)
    sx.observe("out", len(found.out))
    sx.observe("text", found.text)
    if expected.error:
        sx.reach("exception")


# scripts with calls inside of calls
NESTED = ("operators_below", "recursive_implicit", "failed_argument",
          "functions", "generators", "classes", "closures", "decorators",
          "operators", "propagation", "class_forms", "recursion", "with",
          "iterators")


@harness("T01", params=[(name, {"name": name}) for name in NESTED
                        if name in SCRIPTS], budget=(25, 200))
def limited(sx, name):
    """The same, when only the calls above a depth are collected"""
    code, spec = SCRIPTS[name]
    inp = inputs(sx, spec)
    depth = sx.choose("depth", [0, 1, 2, 3])
    expected = trial.plain(sx, code, inp=inp)
    found = trial.capture(sx, code, _config={"depth": depth}, inp=inp)
    compare(sx, expected, found)
    sx.observe("out", len(found.out))


@harness("T01", params=[(name, {"name": name}) for name in sorted(QUIRKS)],
         budget=(15, 30))
def quirk(sx, name):
    """Constructs that are known to behave in another way"""
    what, code, spec = QUIRKS[name]
    inp = inputs(sx, spec)
    expected = trial.plain(sx, code, inp=inp)
    found = trial.capture(sx, code, inp=inp)
    equal = sx.and_(
        trial.same(sx, expected.out, found.out),
        trial.same(sx, trial.snapshot(expected.text),
                   trial.snapshot(found.text)),
        trial.same(sx, expected.error, found.error))
    sx.check(equal, "same results", known=[("T01-" + name, True)],
             plain=[expected.out, expected.error],
             captured=[found.out, found.error])
