"""Helpers shared by harnesses"""
from __future__ import annotations


class Record(object):
    """Plain record"""

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)

    def __repr__(self):
        return "Record(%s)" % ", ".join(
            "%s=..." % k for k in self.__dict__)


_FAKES = {}


def fake(cls, **attrs):
    """Instance of a real persistence model that is not bound to a database

    The given attributes replace columns and relationships; every other
    method and property of the real class is kept.
    """
    key = (cls, tuple(sorted(attrs)))
    sub = _FAKES.get(key)
    if sub is None:
        body = {name: None for name in attrs}
        body["__init__"] = lambda self, *args, **kwargs: None
        body["_get_instance"] = lambda self: self
        body["__hash__"] = cls.__hash__
        sub = type(cls)("Fake" + cls.__name__, (cls,), body)
        _FAKES[key] = sub
    obj = sub.__new__(sub)
    obj.__dict__.update(attrs)
    return obj


_PROJECT = {}


def project(engine=None, git=False):
    """Connect the persistence layer to a scratch project (once per process)"""
    import tempfile
    from noworkflow.now.persistence import persistence_config
    if "path" not in _PROJECT:
        path = tempfile.mkdtemp(prefix="sxproj")
        _PROJECT["path"] = path
        quiet()
        # the default engine starts processes
        persistence_config.content_engine = engine or "plain"
        persistence_config.connect(path)
    return _PROJECT["path"]


def quiet():
    """Silence messages of noworkflow"""
    from noworkflow.now.utils import io
    io.print_msg = lambda *args, **kwargs: None


def erase_tables():
    from noworkflow.now.persistence import relational
    session = relational.session
    for table in reversed(relational.base.metadata.sorted_tables):
        session.execute(table.delete())
    session.commit()
    session.expire_all()


def attr_patch(sx, target, name, value):
    """Replace attribute until the end of the path"""
    missing = object()
    old = target.__dict__.get(name, missing) if hasattr(
        target, "__dict__") else getattr(target, name)
    setattr(target, name, value)

    def undo():
        if old is missing:
            delattr(target, name)
        else:
            setattr(target, name, old)
    sx.cleanup(undo)
