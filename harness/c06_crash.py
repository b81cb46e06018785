"""C06: interrupted content writes never corrupt or lose stored content"""
from symex.api import harness
from symex import gitmodel, hlib
from symex.vfs import Crash, FileSystem

from harness.c05_content import connect

hlib.quiet()

PREFIXES = ("aa", "ab")


def absent(database, content_hash):
    """Is the content of the hash absent? Otherwise, the content"""
    try:
        return None, database.get(content_hash)
    except Crash:
        raise
    except Exception as exc:      # pylint: disable=broad-except
        return exc, None


class History(object):
    """Contents stored by the processes of a project"""

    def __init__(self, sx):
        self.sx = sx
        self.fs = FileSystem(sx)
        self.hashing = gitmodel.Hashing(sx, PREFIXES)
        self.hashing.install()
        self.fs.make(self.fs.path(".noworkflow"))
        self.stored = []
        self.started = []

    def digest(self, content):
        import hashlib
        return hashlib.sha1(content).hexdigest()

    def put(self, database, content):
        """Store and remember that the content must be readable"""
        self.started.append(content)
        content_hash = database.put(content, "generic")
        self.stored.append((content, content_hash))
        return content_hash

    def verify(self, database, moment):
        sx = self.sx
        for content, content_hash in self.stored:
            problem, found = absent(database, content_hash)
            sx.check(problem is None, "stored contents are readable",
                     moment=moment, problem=repr(problem), content=content)
            sx.check(sx.eq(found, content), "stored contents are correct",
                     moment=moment, content=content, found=found)
            sx.check(content_hash == self.digest(content),
                     "hashes identify contents", moment=moment,
                     content=content)
            sx.check(database.find_subhash(content_hash) == content_hash,
                     "stored contents are found", moment=moment,
                     content=content)
        hashes = {}
        for content in self.started:
            hashes.setdefault(self.digest(content), content)
        for content_hash, content in hashes.items():
            problem, found = absent(database, content_hash)
            if problem is None:
                sx.check(sx.eq(found, content),
                         "hashes never give other contents", moment=moment,
                         content=content, found=found)
        available = {h for _, h in self.stored}
        for prefix in sorted({h[:size] for h in hashes for size in (2, 4)}):
            name = database.find_subhash(prefix)
            if name is None:
                sx.check(not any(h.startswith(prefix) for h in available),
                         "search finds the stored contents", moment=moment,
                         prefix=prefix)
                continue
            problem, found = absent(database, name)
            sx.check(name in hashes and problem is None and sx.eq(
                found, hashes[name]), "search gives readable contents",
                     moment=moment, prefix=prefix, name=name, found=found)
        for name in database.listAll():
            problem, found = absent(database, name)
            sx.check(name in hashes and problem is None and sx.eq(
                found, hashes[name]), "listing gives readable contents",
                     moment=moment, name=name, found=found)


def history(sx, size, count):
    result = History(sx)
    contents = [sx.bytes("content%d" % i, "a\n\xff", 0, size)
                for i in range(count)]
    database = connect("plain", result.fs.root)
    return result, contents, database


@harness("C06", params=[
    ("crash,2,1,2", {"kind": "crash", "size": 1, "count": 2, "faults": 2}),
    ("error,2,1,2", {"kind": "error", "size": 1, "count": 2, "faults": 2}),
    ("crash,3,1,1", {"kind": "crash", "size": 1, "count": 3, "faults": 1}),
    ("error,3,1,1", {"kind": "error", "size": 1, "count": 3, "faults": 1}),
    ("crash,2,3,1", {"kind": "crash", "size": 3, "count": 2, "faults": 1}),
    ("crash,3,2,2", {"kind": "crash", "size": 2, "count": 3, "faults": 2},
     {"tiers": ("thorough",)}),
    ("error,3,2,2", {"kind": "error", "size": 2, "count": 3, "faults": 2},
     {"tiers": ("thorough",)}),
], budget=(60, 900), reach=["interrupted", "completed"])
def interrupted(sx, kind, size, count, faults):
    """Sequence of puts, the operation of a symbolic step of one of them
    crashes or fails; the interrupted content is stored again"""
    run, contents, database = history(sx, size, count)
    steps = [sx.int("step%d" % i, 1, 8 * count) for i in range(faults)]
    if faults == 2:
        sx.assume(steps[0] < steps[1])
    process = sx.choose("process", ["new", "same"]
                        if kind == "error" else ["new"])
    run.fs.fault = (kind, steps[0])
    for content in contents:
        for attempt in range(3):
            try:
                run.put(database, content)
                break
            except Crash:
                pass
            except OSError:
                sx.check(kind == "error", "no other failures",
                         content=content, attempt=attempt)
            sx.reach("interrupted")
            sx.check(attempt < 2, "storing again succeeds", content=content)
            log = list(run.fs.log)
            run.fs.reboot()
            if process == "new":
                database = connect("plain", run.fs.root)
            run.verify(database, "after the interruption of %s" % (log[-1:],))
            run.fs.fault = (kind, steps[1]) if faults == 2 else None
    run.fs.fault = None
    sx.reach("completed")
    run.verify(database, "at the end")
    run.verify(connect("plain", run.fs.root), "in another process")


@harness("C06", params=[
    ("2,1,1", {"size": 1, "count": 2, "others": 1}),
    ("1,2,1", {"size": 1, "count": 1, "others": 2}),
    ("2,2,3", {"size": 3, "count": 2, "others": 2},
     {"tiers": ("thorough",)}),
], budget=(60, 900), reach=["other process", "completed"])
def concurrent(sx, size, count, others):
    """Another process connects and stores contents at a symbolic moment of
    the puts of this process"""
    result = History(sx)
    contents = [sx.bytes("content%d" % i, "a\n\xff", 0, size)
                for i in range(count)]
    added = [sx.bytes("other%d" % i, "a\n\xff", 0, size)
             for i in range(others)]
    moment = sx.int("moment", 1, 30)

    def other():
        database = connect("plain", result.fs.root)
        for content in added:
            result.put(database, content)
        result.verify(database, "in the other process")

    result.fs.other = (other, moment)
    database = connect("plain", result.fs.root)
    for content in contents:
        result.put(database, content)
    result.fs.other = None
    sx.reach("completed")
    result.verify(database, "at the end")
    result.verify(connect("plain", result.fs.root), "in another process")
