"""Models of pygit2, dulwich, gitdb and the git command for symbolic runs

Concrete runs use the real libraries.  Objects are identified by the hash of
their kind and contents; trees keep names that may be symbolic.
"""
from __future__ import annotations

import sys
import types

from .core import Sym, SymBytes, SymStr, cur, deep_eq, isinstance_


class GitError(Exception):
    """Operation that git refuses"""


REFUSED = ("", ".", "..")


def refused(name):
    """Names that git does not accept in a tree"""
    if isinstance_(name, SymStr):
        name = cur().concretize(name)
    low = name.lower()
    if name in REFUSED or "/" in name or "\0" in name:
        return True
    for base in (".git", "git~1"):
        if low.startswith(base):
            rest = low[len(base):]
            if not rest.strip(" .") or rest[0] in ":\\":
                return True
    return False


class Hashing(object):
    """Injective hash functions. Equal contents have equal digests, others
    have digests that may share a prefix"""

    def __init__(self, sx, prefixes=("aa",)):
        self.sx = sx
        self.known = []
        self.prefixes = list(prefixes)

    def digest(self, data):
        for other, digest in self.known:
            if len(other) == len(data) and bool(self.sx.eq(other, data)):
                return digest
        number = len(self.known)
        prefix = self.prefixes[0]
        if len(self.prefixes) > 1:
            prefix = self.sx.choose("hash%d" % number, self.prefixes)
        digest = "%s%s%s" % (prefix, "%02x" % (16 * number + 7),
                             "0" * (38 - len(prefix)))
        self.known.append((data, digest))
        return digest

    def create(self, data=b"", **kwargs):
        return Digest(self, data)

    def install(self):
        import hashlib
        names = ("sha1", "sha256", "sha512", "md5", "blake2b", "sha224",
                 "sha384", "blake2s")
        saved = {name: getattr(hashlib, name) for name in names}
        saved["new"] = hashlib.new
        for name in names:
            setattr(hashlib, name, self.create)
        hashlib.new = lambda name, data=b"", **kwargs: self.create(data)

        def restore():
            for name, value in saved.items():
                setattr(hashlib, name, value)
        self.sx.cleanup(restore)


class Digest(object):

    def __init__(self, hashing, data):
        self.hashing = hashing
        self.data = data

    def update(self, data):
        self.data = self.data + data

    def hexdigest(self):
        return self.hashing.digest(self.data)

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        return Digest(self.hashing, self.data)


class Store(object):
    """Objects and references of a repository"""

    def __init__(self, hashing):
        self.hashing = hashing
        self.objects = {}       # id -> (kind, data)
        self.refs = {}          # name -> id
        self.index = []         # (path, id)
        self.count = 0

    def blob(self, data):
        name = self.hashing.digest(b"blob %d\0" % len(data) + data)
        self.objects[name] = ("blob", data)
        return name

    def new(self, kind, data):
        """Trees and commits have new ids"""
        self.count += 1
        name = "%s%03d%s" % ("cc" if kind == "tree" else "dd", self.count,
                             "0" * 35)
        self.objects[name] = (kind, data)
        return name

    def lookup(self, name):
        if name not in self.objects:
            raise KeyError(name)
        return self.objects[name]

    def tree(self, entries):
        """entries: [(name, mode, id)]"""
        return self.new("tree", list(entries))

    def find(self, prefix):
        return [name for name in sorted(self.objects)
                if name.startswith(prefix)]


class Model(object):
    """Repositories of a run"""

    def __init__(self, sx, fs, hashing):
        self.sx = sx
        self.fs = fs
        self.hashing = hashing
        self.stores = {}
        self.tasks = []

    def init(self, path):
        path = str(path)
        if path not in self.stores:
            self.stores[path] = Store(self.hashing)
            self.fs.make(path)

    def store(self, path):
        path = "/" + str(path).strip("/")
        if path.endswith("/objects"):
            path = path[:-len("/objects")]
        if path not in self.stores:
            raise GitError("not a repository: " + path)
        return self.stores[path]


MODEL = None


def model():
    return MODEL


def use(value):
    global MODEL
    MODEL = value


def sequence(value):
    """Content as bytes"""
    if isinstance_(value, SymBytes):
        return value
    return bytes(value)


# pygit2

class Oid(object):

    def __init__(self, name):
        self.name = name
        self.hex = name

    def __str__(self):
        return self.name

    def __eq__(self, other):
        return str(other) == self.name

    def __hash__(self):
        return hash(self.name)


class PyGitObject(object):

    def __init__(self, name, kind, data):
        self.id = self.oid = Oid(name)
        self.hex = name
        self.kind = kind
        self.data = data
        self.type_str = kind
        self.size = len(data) if kind == "blob" else 0

    def read_raw(self):
        return self.data

    def peel(self, *args):
        return self


class TreeBuilder(object):

    def __init__(self, store):
        self.store = store
        self.entries = []

    def insert(self, name, oid, mode):
        oid = str(oid)
        if refused(name):
            raise GitError("invalid name for a tree entry")
        if oid not in self.store.objects:
            raise GitError("target object does not exist")
        self.entries = [e for e in self.entries
                        if not bool(deep_eq(e[0], name))]
        self.entries.append((name, mode, oid))

    def write(self):
        return Oid(self.store.tree(self.entries))


class Reference(object):

    def __init__(self, store, name):
        self.store = store
        self.name = name
        self.target = Oid(store.refs[name])

    def peel(self, *args):
        name = self.store.refs[self.name]
        return PyGitObject(name, *self.store.lookup(name))


class PyGitRepository(object):

    def __init__(self, path, *args, **kwargs):
        self.path = path
        self._store = model().store(path)

    def create_blob(self, data):
        return Oid(self._store.blob(sequence(data)))

    def __getitem__(self, name):
        name = str(name)
        return PyGitObject(name, *self._store.lookup(name))

    def get(self, name, default=None):
        try:
            return self[name]
        except KeyError:
            return default

    def __contains__(self, name):
        return str(name) in self._store.objects

    def __iter__(self):
        return iter([Oid(x) for x in sorted(self._store.objects)])

    def revparse_single(self, prefix):
        found = self._store.find(prefix)
        if not found:
            raise KeyError(prefix)
        if len(found) > 1:
            raise ValueError("ambiguous")
        return self[found[0]]

    def TreeBuilder(self, *args):
        return TreeBuilder(self._store)

    @property
    def references(self):
        return list(self._store.refs)

    def lookup_reference(self, name):
        return Reference(self._store, name)

    def create_commit(self, ref, author, committer, message, tree, parents,
                      *args):
        name = self._store.new("commit", {
            "tree": str(tree), "parents": [str(p) for p in parents],
            "message": message})
        old = self._store.refs.get(ref)
        if old is not None and (not parents or str(parents[0]) != old):
            raise GitError("current tip is not the first parent")
        if ref is not None:
            self._store.refs[ref] = name
        return Oid(name)


def pygit2():
    module = types.ModuleType("pygit2")
    module.Repository = PyGitRepository
    module.GitError = GitError

    def init_repository(path, bare=False, *args, **kwargs):
        model().init(path)
        return PyGitRepository(path)
    module.init_repository = init_repository
    module.GIT_FILEMODE_BLOB = 0o100644
    module.GIT_FILEMODE_TREE = 0o040000
    module.GIT_OBJ_BLOB = 3
    module.Signature = lambda *args, **kwargs: args
    module.Oid = Oid
    return module


# dulwich

class DulwichObject(object):
    kind = None
    _id = None

    @property
    def id(self):
        if self._id is None:
            self._id = self.name()
        return self._id


class Blob(DulwichObject):
    kind = "blob"
    type_name = b"blob"

    def __init__(self):
        self.data = b""

    @classmethod
    def from_string(cls, data):
        result = cls()
        result.data = sequence(data)
        return result

    def as_raw_string(self):
        return self.data

    def as_pretty_string(self):
        data = self.data
        if isinstance_(data, SymBytes):
            data = cur().concretize(data)
        return data.decode("utf-8", "replace")

    def name(self):
        return model().hashing.digest(
            b"blob %d\0" % len(self.data) + self.data).encode("ascii")


class DulwichTree(DulwichObject):
    kind = "tree"

    def __init__(self):
        self.data = []

    def add(self, name, mode, sha):
        name = name.decode("utf-8")
        self.data = [e for e in self.data if not bool(deep_eq(e[0], name))]
        self.data.append((name, mode, sha.decode("ascii")))
        self._id = None

    def __setitem__(self, name, value):
        self.add(name, *value)

    def name(self):
        # trees are equal when their entries are; names are new here
        model().sx_count = getattr(model(), "sx_count", 0) + 1
        return ("cc%03d%s" % (model().sx_count, "0" * 35)).encode("ascii")


class Commit(DulwichObject):
    kind = "commit"

    def __init__(self):
        self.parents = []

    @property
    def data(self):
        return {"tree": self.tree.decode("ascii"),
                "parents": [p.decode("ascii") for p in self.parents],
                "message": self.message}

    def name(self):
        model().sx_count = getattr(model(), "sx_count", 0) + 1
        return ("dd%03d%s" % (model().sx_count, "0" * 35)).encode("ascii")


class ObjectStore(object):

    def __init__(self, store):
        self._store = store
        self._wrapped = {}

    def add_object(self, obj):
        self._store.objects[obj.id.decode("ascii")] = (obj.kind, obj.data)

    def __getitem__(self, name):
        kind, data = self._store.lookup(name.decode("ascii"))
        result = {"blob": Blob, "tree": DulwichTree}.get(kind, Commit)()
        if kind == "blob":
            result.data = data
        elif kind == "tree":
            result.data = data
        else:
            result.tree = data["tree"].encode("ascii")
            result.parents = [p.encode("ascii") for p in data["parents"]]
        result._id = name
        return result

    def __contains__(self, name):
        return name.decode("ascii") in self._store.objects

    def __iter__(self):
        return iter([x.encode("ascii") for x in sorted(self._store.objects)])

    def iter_prefix(self, prefix):
        return iter([x.encode("ascii") for x in self._store.find(
            prefix.decode("ascii"))])


class Refs(object):

    def __init__(self, store):
        self._store = store

    def __getitem__(self, name):
        return self._store.refs[name.decode("ascii")].encode("ascii")

    def __setitem__(self, name, value):
        self._store.refs[name.decode("ascii")] = value.decode("ascii")

    def __contains__(self, name):
        return name.decode("ascii") in self._store.refs


class DulwichRepo(object):

    def __init__(self, path):
        self.path = path
        self._store = model().store(path)
        self.object_store = ObjectStore(self._store)
        self.refs = Refs(self._store)

    @classmethod
    def init_bare(cls, path, *args, **kwargs):
        model().init(path)
        return cls(path)

    def __getitem__(self, name):
        return self.object_store[name]

    get_object = __getitem__

    def __contains__(self, name):
        return name in self.object_store

    def get_refs(self):
        return {k.encode("ascii"): v.encode("ascii")
                for k, v in self._store.refs.items()}

    def close(self):
        pass


def dulwich():
    modules = {}
    base = types.ModuleType("dulwich")
    base.__path__ = []
    modules["dulwich"] = base
    for name in ("file", "repo", "objects", "objectspec"):
        module = types.ModuleType("dulwich." + name)
        modules["dulwich." + name] = module
        setattr(base, name, module)
    modules["dulwich.repo"].Repo = DulwichRepo
    objects = modules["dulwich.objects"]
    objects.Tree = DulwichTree
    objects.Blob = Blob
    objects.Commit = Commit
    objects.ShaFile = DulwichObject
    objects.parse_timezone = lambda text: (0, False)

    def scan_for_short_id(object_store, prefix, kind):
        found = [object_store[x] for x in object_store.iter_prefix(prefix)]
        found = [x for x in found if isinstance(x, kind)]
        if not found:
            raise KeyError(prefix)
        if len(found) > 1:
            raise ValueError("ambiguous")
        return found[0]
    modules["dulwich.objectspec"].scan_for_short_id = scan_for_short_id
    return modules


# gitdb

def gitdb():
    module = types.ModuleType("gitdb")

    class IStream(object):
        def __init__(self, kind, size, stream, sha=None):
            self.kind = kind
            self.size = size
            self.stream = stream
            self.hexsha = None

    class LooseObjectDB(object):
        def __init__(self, path):
            self._store = model().store(path)

        def store(self, stream):
            data = stream.stream.read()
            if len(data) != stream.size:
                raise GitError("wrong size")
            name = self._store.blob(sequence(data))
            stream.hexsha = name.encode("ascii")
            stream.binsha = bytes.fromhex(name)
            return stream
    module.IStream = IStream
    module.LooseObjectDB = LooseObjectDB
    return module


class Stream(object):
    """BytesIO of symbolic contents"""

    def __init__(self, data=b""):
        self.data = data

    def read(self, size=-1):
        data, self.data = self.data, b""
        return data

    def getvalue(self):
        return self.data


# git command

class Popen(object):
    """git command over the model"""

    def __init__(self, cmd, stdin=None, stdout=None, stderr=None, cwd=None,
                 env=None, shell=False, **kwargs):
        if shell:
            cmd = (cmd if isinstance(cmd, str) else cmd[0]).split()
        self.cmd = [cur().concretize_deep(item) for item in cmd]
        self.cwd = cwd
        self.env = env
        self.returncode = None
        self.done = False

    def communicate(self, data=b""):
        self.done = True
        try:
            out = self.execute(data)
            self.returncode = 0
        except (GitError, KeyError) as exc:
            out = b"fatal: %r" % exc
            self.returncode = 128
        return out, None

    def wait(self):
        if not self.done:
            self.communicate()
        return self.returncode

    def execute(self, data):
        name, args = self.cmd[1], self.cmd[2:]
        if name == "init":
            model().init(args[-1])
            return b""
        store = model().store(self.cwd)
        return getattr(self, "git_" + name.replace("-", "_"))(
            store, args, data)

    def git_gc(self, store, args, data):
        reachable = {value for _, value in store.index}
        pending = list(store.refs.values())
        while pending:
            item = pending.pop()
            if item in reachable:
                continue
            reachable.add(item)
            kind, value = store.objects[item]
            if kind == "commit":
                pending += [value["tree"]] + value["parents"]
            elif kind == "tree":
                pending += [e[2] for e in value]
        return b""

    def git_hash_object(self, store, args, data):
        return store.blob(sequence(data)).encode("ascii") + b"\n"

    def git_cat_file(self, store, args, data):
        if args[0] == "-p":
            kind, value = store.lookup(args[1])
            return value if kind == "blob" else repr(value).encode("utf-8")
        return "".join("%s %s\n" % (store.objects[x][0], x)
                       for x in sorted(store.objects)).encode("ascii")

    def git_update_index(self, store, args, data):
        _, _, mode, sha, name = args
        parts = name.split("/")
        if any(refused(part) for part in parts):
            raise GitError("invalid path")
        for index in range(1, len(parts)):
            base = "/".join(parts[:index])
            if any(bool(deep_eq(path, base)) for path, _ in store.index):
                raise GitError("appears as both a file and as a directory")
        for path, _ in store.index:
            if bool(path.startswith(name + "/")):
                raise GitError("appears as both a file and as a directory")
        store.index = [(path, value) for path, value in store.index
                       if not bool(deep_eq(path, name))]
        store.index.append((name, sha))
        return b""

    def git_write_tree(self, store, args, data):
        name = store.tree([(path, 0o100644, value)
                           for path, value in store.index])
        return name.encode("ascii") + b"\n"

    def git_rm(self, store, args, data):
        store.index = []
        return b""

    def git_commit_tree(self, store, args, data):
        env = self.env or {}
        for role in ("AUTHOR", "COMMITTER"):
            if "GIT_%s_NAME" % role not in env:
                raise GitError("unknown identity")
        parents = [args[i + 1] for i, arg in enumerate(args) if arg == "-p"]
        name = store.new("commit", {"tree": args[0], "parents": parents,
                                    "message": args[args.index("-m") + 1]})
        return name.encode("ascii") + b"\n"

    def git_show_ref(self, store, args, data):
        if args[0] not in store.refs:
            raise GitError("no ref")
        return ("%s %s\n" % (store.refs[args[0]], args[0])).encode("ascii")

    def git_update_ref(self, store, args, data):
        store.lookup(args[1])
        store.refs[args[0]] = args[1]
        return b""

    def git_rev_list(self, store, args, data):
        return "".join(x + "\n" for x in sorted(store.objects)).encode()


# processes

class Manager(object):

    def dict(self):
        return {}

    def RLock(self):
        import threading
        return threading.RLock()

    Lock = RLock


class Task(object):
    """Execution that happens at some moment until it is waited for"""

    def __init__(self, func, args):
        self.func = func
        self.args = args
        model().tasks.append(self)

    def run(self):
        model().tasks.remove(self)
        self.func(*self.args)


def some():
    """Some of the pending tasks happen now, in any order"""
    sx = model().sx
    while model().tasks:
        number = len(sx_names(sx))
        which = sx.choose("task%d" % number,
                          [None] + list(range(len(model().tasks))))
        sx_names(sx).append(which)
        if which is None:
            return
        model().tasks[which].run()


def sx_names(sx):
    if not hasattr(model(), "choices"):
        model().choices = []
    return model().choices


def finish():
    """All the pending tasks happen, in any order"""
    sx = model().sx
    while model().tasks:
        count = len(model().tasks)
        which = 0
        if count > 1:
            number = len(sx_names(sx))
            which = sx.choose("task%d" % number, list(range(count)))
            sx_names(sx).append(which)
        model().tasks[which].run()


class Process(object):

    def __init__(self, *args, **kwargs):
        pass

    def start(self):
        JoinableQueue.consumers.append(self)

    def join(self, *args):
        pass


class JoinableQueue(object):
    """Queue whose items are consumed by processes at any moment"""

    consumers = []

    def __init__(self, *args):
        self.items = []
        JoinableQueue.consumers = []

    def put(self, item):
        if item is None:
            return
        Task(self.consume, (item,))
        some()

    def consume(self, item):
        self.items = [item, None]
        self.consumers[0].run()

    def get(self):
        return self.items.pop(0)

    def task_done(self):
        pass

    def join(self):
        finish()


class Pool(object):

    def __init__(self, *args, **kwargs):
        pass

    def apply_async(self, func, args=(), **kwargs):
        Task(func, args)
        some()

    def close(self):
        pass

    def join(self):
        finish()


class Thread(object):

    def __init__(self, group=None, target=None, args=(), kwargs=None, **kw):
        self.task = (target, args)

    def start(self):
        Task(*self.task)
        some()

    def join(self, *args):
        finish()


def install():
    """Replace the libraries, before the engines are imported"""
    import multiprocessing
    import subprocess
    import threading
    sys.modules["pygit2"] = pygit2()
    sys.modules.update(dulwich())
    sys.modules["gitdb"] = gitdb()
    for name, value in [("Process", Process), ("Manager", Manager),
                        ("JoinableQueue", JoinableQueue), ("Pool", Pool),
                        ("cpu_count", lambda: 2)]:
        setattr(multiprocessing, name, value)
    fake = types.ModuleType("threading")
    fake.__dict__.update(threading.__dict__)
    fake.Thread = Thread
    return fake, subprocess
