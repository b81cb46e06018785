"""C05: the content store gives back exactly the bytes that were stored"""
import os
import shutil
import sys
import tempfile

from symex.api import harness
from symex import gitmodel, hlib
from symex.vfs import FileSystem

from noworkflow.now.persistence.config import PersistenceConfig
from noworkflow.now.persistence.content_database import ContentDatabase

hlib.quiet()


def connect(engine, path):
    """Content database of a project"""
    config = PersistenceConfig()
    config.content_engine = engine
    database = ContentDatabase(config)
    config.connect(path)
    return database


def settle(database):
    close = getattr(database, "close", None)
    if close is not None:
        close()


def contents(sx, count, size, alphabet="ab\n\xff"):
    return [sx.bytes("content%d" % i, alphabet, 0, size)
            for i in range(count)]


def verify(sx, database, stored, label):
    """Every hash gives the content"""
    for number, (name, content, content_hash) in enumerate(stored):
        found = database.get(content_hash)
        sx.check(isinstance(found, bytes) and sx.eq(found, content),
                 label + ": the stored bytes", number=number, name=name,
                 content=content, found=found)
        for _, other, other_hash in stored[:number]:
            same = sx.eq(other, content) if len(other) == len(content) \
                else False
            equal = other_hash == content_hash
            sx.check(sx.eq(same, equal) if same is not True else equal,
                     label + ": hashes identify contents",
                     contents=(other, content), hashes=(
                         other_hash, content_hash))
        for size in (2, 3, 4, 6, 10, 40):
            prefix = content_hash[:size]
            matching = {h for _, _, h in stored if h.startswith(prefix)}
            if len(matching) > 1 and label != "plain" or (
                    size < 4 and label != "plain"):
                continue        # git requires longer and unique prefixes
            found = database.find_subhash(prefix)
            sx.check(found in matching, label + ": search by prefix",
                     prefix=prefix, found=found, expected=sorted(matching))


PREFIXES = ("aa1", "aa2", "ab1")


@harness("C05", params=[
    ("2,2", {"count": 2, "size": 2}), ("3,1", {"count": 3, "size": 1}),
    ("4,2", {"count": 4, "size": 2}, {"tiers": ("thorough",)}),
], budget=(60, 400), reach=["stored", "reopened"])
def plain(sx, count, size):
    """Plain engine: puts of contents with any bytes, reopened at any moment"""
    fs = FileSystem(sx)
    hashing = gitmodel.Hashing(sx, PREFIXES)
    hashing.install()
    fs.make(fs.path(".noworkflow"))
    database = connect("plain", fs.root)
    stored = []
    for number, content in enumerate(contents(sx, count, size)):
        if number == 1 and sx.choose("reopen", [False, True]):
            database = connect("plain", fs.root)
            sx.reach("reopened")
        name = "generic" if number else sx.choose("name", [
            "generic", "x.txt"])
        stored.append((name, content, database.put(content, name)))
    verify(sx, database, stored, "plain")
    again = connect("plain", fs.root)
    verify(sx, again, stored, "plain")
    sx.check(sorted(again.listAll()) == sorted({h for _, _, h in stored}),
             "plain: listing", listed=sorted(again.listAll()))
    missing = again.find_subhash("bb12")
    sx.check(missing is None, "plain: absent prefix", found=missing)
    sx.reach("stored")


ENGINES = [
    "sequential_pygit", "pygit", "pool_pygit", "threading_pygit",
    "sequential_dulwich", "distributed_dulwich", "pool_dulwich",
    "threading_dulwich", "puregit", "gitdb",
]
SEQUENTIAL = ("sequential_pygit", "sequential_dulwich", "puregit", "gitdb")

# names of files, relative to the root: the project is p
NAMES = [
    ("x", lambda x: "p/" + x),
    ("x/y", lambda x: "p/" + x + "/b"),
    ("x - v2", lambda x: "p/" + x + " - v2"),
    ("git", lambda x: "p/" + x + "/.git/a"),
    ("sibling", lambda x: "p" + x + "/a"),
    ("x and space", lambda x: "p/" + x + " "),
    ("home", lambda x: "home/" + x),
    ("Git", lambda x: "p/.Git"),
    ("short git", lambda x: "p/git~1/" + x),
    ("sibling of home", lambda x: "home" + x + "/a"),
    ("outside", lambda x: "q/" + x),
    ("home in project", lambda x: "p/noworkflow_home/" + x),
]

class Place(object):
    """Directory of a project that uses git"""

    def __init__(self, sx):
        home = os.environ.get("HOME")
        if sx.symbolic:
            self.fs = FileSystem(sx)
            self.root = self.fs.root
            self.make = self.fs.make
            hashing = gitmodel.Hashing(sx)
            hashing.install()
            gitmodel.use(gitmodel.Model(sx, self.fs, hashing))
            import subprocess
            popen = subprocess.Popen
            subprocess.Popen = gitmodel.Popen
            sx.cleanup(lambda: setattr(subprocess, "Popen", popen))
        else:
            self.root = os.path.realpath(tempfile.mkdtemp(prefix="sxgit"))
            self.make = lambda path: os.makedirs(path, exist_ok=True)
            sx.cleanup(lambda: shutil.rmtree(self.root, True))
        self.project = self.root + "/p"
        self.make(self.project + "/.noworkflow")
        self.make(self.root + "/home")
        os.environ["HOME"] = self.root + "/home"
        sx.cleanup(lambda: os.environ.__setitem__("HOME", home)
                   if home is not None else os.environ.pop("HOME", None))
        if sx.symbolic:
            fake, _ = gitmodel.install()
            threads = sys.modules["threading"]
            sys.modules["threading"] = fake
            try:
                from noworkflow.now.persistence.content import pygit_engine
                from noworkflow.now.persistence.content import dulwich_engine
                from noworkflow.now.persistence.content import gitdb_engine
                from noworkflow.now.persistence.content import puregit_engine
                gitdb_engine.BytesIO = gitmodel.Stream
            finally:
                sys.modules["threading"] = threads

    def committed(self, sx, path):
        """Contents of the files of the commits that master has: list of
        hashes for each commit"""
        result = []
        if sx.symbolic:
            store = gitmodel.model().store(path)

            def walk(name):
                for entry in store.lookup(name)[1]:
                    if store.lookup(entry[2])[0] == "tree":
                        yield from walk(entry[2])
                    else:
                        yield entry[2]
            current = store.refs.get("refs/heads/master")
            while current:
                commit = store.lookup(current)[1]
                result.insert(0, list(walk(commit["tree"])))
                current = (commit["parents"] or [None])[0]
            return result
        import subprocess

        def git(*args):
            return subprocess.run(("git", "-C", path) + args, check=True,
                                  capture_output=True).stdout.decode()
        for commit in reversed(git("rev-list", "--first-parent",
                                   "master").split()):
            result.append([line.split()[2] for line in git(
                "ls-tree", "-r", "-z", commit).split("\0") if line])
        return result


def tasks():
    result = []
    for engine in ENGINES:
        result.append(("%s,2" % engine, {
            "engine": engine, "count": 2,
            "names": (len(NAMES) if engine in SEQUENTIAL else 4,
                      len(NAMES))}))
        result.append(("%s,3" % engine, {
            "engine": engine, "count": 3, "names": (
                (4, 4, 4) if engine in SEQUENTIAL else (3, 3, 3))},
            {} if engine in SEQUENTIAL else {"tiers": ("thorough",)}))
    return result


@harness("C05", params=tasks(), budget=(60, 400), reach=["committed"],
         samples=4)
def git(sx, engine, count, names):
    """Git engines: contents of files with related names, committed by one or
    two trials, read by another process"""
    place = Place(sx)
    database = connect(engine, place.project)
    stored, commits = [], []
    pending = []
    for number in range(count):
        which = sx.choose("kind%d" % number, list(range(names[number])))
        text = sx.str("letter%d" % number, "ab", 1, 1) if number else "a"
        name = place.root + "/" + NAMES[which][1](text)
        content = sx.bytes("content%d" % number, "x\xff", 1, 1
                           ) if number else b"x"
        content_hash = database.put(content, name)
        stored.append((name, content, content_hash))
        pending.append(content_hash)
        if number + 1 == count or (number == 0 and sx.choose(
                "commit", [False, True])):
            settle(database)
            database.commit_content("trial")
            commits.append(pending)
            pending = []
            if number + 1 < count:
                database = connect(engine, place.project)
    settle(database)
    again = connect(engine, place.project)
    verify(sx, again, stored, "git")
    settle(again)
    found = place.committed(
        sx, again.content_database_engine.content_path)
    sx.check(len(found) == len(commits) + 1, "commits follow each other",
             commits=len(found), expected=len(commits) + 1)
    for hashes, files in zip(commits, found[1:]):
        sx.check(sorted(files) == sorted(hashes),
                 "the files of the trial are committed", files=files,
                 hashes=hashes)
    sx.reach("committed")
