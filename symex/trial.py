"""Run a script with the real collection of noworkflow, and without it

In symbolic runs, both the original and the transformed tree of the script
are prepared for symbolic values in the same way as the code of noworkflow.
"""
from __future__ import annotations

import ast
import builtins
import codecs
import io
import itertools
import os
import sys

from . import hlib

PATH = "/sx/project"


class Run(object):
    """Result of running a script"""

    def __init__(self):
        self.out = []          # what the script reported through out(...)
        self.text = []         # printed texts
        self.error = None      # exception that left the script
        self.namespace = {}
        self.metascript = None

    def outcome(self):
        return [list(self.out), self.text, self.error]


FUNCTIONS = ("function", "builtin_function_or_method", "method",
             "method_descriptor")


def snapshot(value, seen=()):
    """Plain copy of value, comparable in both modes"""
    from .core import Sym
    typ = type(value)
    if issubclass(typ, Sym) or typ in (int, float, str, bool, bytes,
                                       type(None), complex):
        return value
    if id(value) in seen:
        return "<cycle>"
    seen = seen + (id(value),)
    if typ in (list, tuple):
        return [typ.__name__] + [snapshot(v, seen) for v in value]
    if typ is dict or issubclass(typ, dict):
        return ["dict"] + [[snapshot(k, seen), snapshot(v, seen)]
                           for k, v in list(value.items())]
    if typ in (set, frozenset):
        return [typ.__name__, Bag([snapshot(v, seen) for v in value])]
    if typ is range or typ is slice:
        return [typ.__name__, repr(value)]
    if isinstance(value, BaseException):
        return [typ.__name__, [snapshot(v, seen) for v in value.args]]
    if isinstance(value, type):
        return ["class", value.__name__]
    if typ.__name__ == "module":
        return ["module", value.__name__]
    if typ.__name__ in FUNCTIONS:
        return ["function", value.__name__]
    try:
        fields = object.__getattribute__(value, "__dict__")
    except AttributeError:
        fields = None
    if isinstance(fields, dict):
        return [typ.__name__, [[k, snapshot(v, seen)]
                               for k, v in fields.items()]]
    return [typ.__name__]


class Bag(list):
    """Values without order"""


def same(sx, left, right):
    """Condition: two snapshots are equal (including types)"""
    from .core import Sym
    if isinstance(left, Bag) and type(left) is Bag:
        return type(right) is Bag and sx.bag_eq(
            [tuple_of(x) for x in left], [tuple_of(x) for x in right])
    if type(left) is list or type(right) is list:
        if type(left) is not type(right) or len(left) != len(right):
            return False
        return sx.and_(*[same(sx, a, b) for a, b in zip(left, right)])
    if issubclass(type(left), Sym) or issubclass(type(right), Sym):
        if left.__class__ is not right.__class__:
            return False
        return sx.eq(left, right)
    if type(left) is not type(right):
        return False
    return left == right


def tuple_of(value):
    if isinstance(value, list):
        return tuple(tuple_of(v) for v in value)
    return value


def describe(exc):
    return [type(exc).__name__, [snapshot(v) for v in exc.args]]


def _run(sx, run, func):
    """Run func with its output captured"""
    old_stdout = getattr(sx, "stdout", None)
    stream = io.StringIO()
    if sx.symbolic:
        sx.stdout = run.text
    real = sys.stdout
    argv, path0 = sys.argv, list(sys.path)
    sys.stdout = stream
    try:
        func()
    finally:
        sys.stdout = real
        sys.argv = argv
        sys.path[:] = path0
        if sx.symbolic:
            sx.stdout = old_stdout
            text = stream.getvalue()
            if text:
                run.text.append(text)
            from .models import concat
            run.text = concat(run.text) if run.text else ""
        else:
            run.text = stream.getvalue()


def builtin_namespace():
    return dict(builtins.__dict__)


def base_names(run, extra):
    names = {"out": lambda *values: run.out.append(
        [snapshot(v) for v in values])}
    names.update(extra)
    return names


def plain(sx, code, _tree=None, **extra):
    """Run script (or its tree) with plain Python"""
    from .core import EngineControl
    run = Run()
    space = run.namespace
    space.update({"__name__": "__main__", "__file__": PATH + "/script.py",
                  "__builtins__": builtin_namespace()})
    space["__builtins__"].update(base_names(run, extra))
    tree = _tree or ast.parse(code, PATH + "/script.py")
    if sx.symbolic:
        from . import instrument
        space[instrument.SX] = instrument.NAMESPACE
        compiled = instrument.compile_tree(tree, PATH + "/script.py")
    else:
        compiled = compile(tree, PATH + "/script.py", "exec")

    def execute():
        try:
            exec(compiled, space)
        except EngineControl:
            raise
        except SystemExit as exc:
            if exc.code not in (None, 0):
                run.error = describe(exc)
        except BaseException as exc:
            run.error = describe(exc)
    _run(sx, run, execute)
    return run


_READY = []


def prepare():
    if _READY:
        return
    hlib.project()
    from noworkflow.now.persistence import persistence_config
    hlib.quiet()
    _READY.append(True)


def metascript_for(sx, code, run, **config):
    """Metascript ready to collect"""
    prepare()
    from noworkflow.now.collection.metadata import Metascript
    trial_id = config.pop("trial_id", 1)
    meta = Metascript(path=PATH + "/script.py", dir=PATH, code=code,
                      trial_id=trial_id, name="script.py", command="run",
                      **config)
    meta.clear_namespace()
    run.metascript = meta
    run.namespace = meta.namespace
    # private copy: the collection adds names to it
    meta.namespace["__builtins__"] = builtin_namespace()
    return meta


def guard(sx):
    """Undo what the collection does to the interpreter"""
    saved = (builtins.open, io.open, codecs.open, os.open)
    finders = list(sys.meta_path)
    own = builtins.__dict__.get("__noworkflow__")

    def undo():
        builtins.open, io.open, codecs.open, os.open = saved
        sys.meta_path[:] = finders
        builtins.__dict__.pop("__noworkflow__", None)
        if own is not None:
            builtins.__noworkflow__ = own
    sx.cleanup(undo)
    return undo


def capture(sx, code, _config=None, _clock=None, _shared=False, **extra):
    """Run script with the collection of provenance

    _shared -- use the builtins of the interpreter, instead of a copy
    """
    from .core import EngineControl
    run = Run()
    meta = metascript_for(sx, code, run, **(_config or {}))
    if sx.symbolic:
        from . import instrument
        meta.namespace[instrument.SX] = instrument.NAMESPACE
    undo = guard(sx)
    if _shared:
        everything = dict(builtins.__dict__)

        def forget():
            for name in set(builtins.__dict__) - set(everything):
                del builtins.__dict__[name]
            builtins.__dict__.update(everything)
        sx.cleanup(forget)
        meta.namespace["__builtins__"] = builtins.__dict__
    meta.namespace["__builtins__"].update(base_names(run, extra))
    steps = itertools.count(1)
    if _clock is not None:
        _clock.install(meta)
    else:
        # every moment is different
        meta.execution.collector.get_time = lambda: next(steps) / 1e6
    builtins.__noworkflow__ = meta.execution.collector
    script_error = []
    from noworkflow.now.collection.prov_execution import execution as module

    def execute():
        try:
            meta.execution.collect_provenance()
        except EngineControl:
            raise
        except BaseException as exc:
            run.error = ["not handled by the collection", describe(exc)]
        else:
            if meta.execution.force_msg:
                run.error = script_error[-1] if script_error else [
                    meta.execution.msg.split("\n")[-2:]]
    # exceptions are reported as text: keep the exception itself
    original = module.traceback.format_exc

    def format_exc(*args, **kwargs):
        script_error.append(describe(sys.exc_info()[1]))
        return original(*args, **kwargs)
    old = module.traceback

    class Traceback(object):
        def __getattr__(self, name):
            return format_exc if name == "format_exc" else getattr(old, name)
    module.traceback = Traceback()
    try:
        _run(sx, run, execute)
    finally:
        module.traceback = old
        undo()
        if _shared:
            forget()
    if run.error and run.error != "..." and not script_error and \
            meta.execution.msg.startswith("the execution exited"):
        run.error = ["SystemExit", [meta.execution.msg]]
    return run
