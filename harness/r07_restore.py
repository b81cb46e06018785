"""R07: restore puts back the recorded contents and loses nothing"""
import os
from argparse import Namespace
from datetime import datetime, timedelta

import pyposast

from symex.api import harness
from symex import gitmodel, hlib
from symex.symdb import Handle
from symex.vfs import FileSystem

from noworkflow.now.cmd import cmd_restore
from noworkflow.now.persistence import content, persistence_config
from noworkflow.now.persistence.content.plain_engine import PlainEngine
from noworkflow.now.persistence.models import (
    CodeBlock, CodeComponent, EnvironmentAttr, FileAccess, Head, Module,
    Trial)

START = datetime(2016, 4, 8, 12, 30, 5)
NORMAL = {"skip_script": False, "skip_local": False, "skip_access": False}

hlib.quiet()


def decode_source(data):
    """Universal newlines (contents have no declaration of encoding)"""
    text = data.decode("utf-8")
    return text.replace("\r\n", "\n").replace("\r", "\n")


class Place(object):
    """Project p, beside another project q"""

    def __init__(self, sx, sub="", cwd="p"):
        self.sx = sx
        self.db = Handle(sx)
        self.fs = FileSystem(sx)
        self.hashing = gitmodel.Hashing(sx)
        self.hashing.install()
        self.sub = sub             # directory of the script
        for name in (("p/" + sub).rstrip("/"), "p/.noworkflow", "q", "p2"):
            self.fs.make(self.fs.path(name))
        self.project = self.fs.path("p")
        os.chdir(self.fs.path(cwd))
        self.messages = []
        hlib.attr_patch(sx, persistence_config, "base_path", None)
        hlib.attr_patch(sx, persistence_config, "provenance_path",
                        self.fs.path("p/.noworkflow"))
        hlib.attr_patch(sx, persistence_config, "connect_existing",
                        self.connect)
        hlib.attr_patch(sx, persistence_config, "content_engine", None)
        self.engine = PlainEngine(persistence_config)
        self.engine.set_path(persistence_config)
        self.engine.connect(persistence_config)
        hlib.attr_patch(sx, content, "content_database_engine", self.engine)
        hlib.attr_patch(sx, cmd_restore, "print_msg",
                        lambda text, *args: self.messages.append(text))
        if sx.symbolic:
            hlib.attr_patch(sx, pyposast, "native_decode_source",
                            decode_source)

    def connect(self, path=None):
        persistence_config.base_path = path

    def put(self, data):
        return None if data is None else self.engine.put(data, "generic")

    def trial(self, tid, day, script, modules, accesses, pwd=None):
        """Trial whose files had these contents (None: no content)"""
        db, name = self.db, os.path.join(self.sub, "s.py")
        db.insert(Trial, id=tid, script="s.py",
                  start=START + timedelta(days=day),
                  finish=START + timedelta(days=day, seconds=9),
                  command="run", status="finished", main_id=1,
                  path=os.path.join(self.project, self.sub).rstrip("/"))
        blocks = [(name, "script", self.put(script))]
        for path, data in modules:
            blocks.append((path, "module", self.put(data)))
        for number, (path, kind, code_hash) in enumerate(blocks, 1):
            db.insert(CodeComponent, trial_id=tid, id=number, name=path,
                      type=kind, mode="w", first_char_line=1,
                      first_char_column=0, last_char_line=1,
                      last_char_column=0, container_id=None)
            db.insert(CodeBlock, trial_id=tid, id=number,
                      code_hash=code_hash, docstring="")
            if number > 1:
                db.insert(Module, trial_id=tid, id=number - 1,
                          name=path.split(".")[0], version="1", path=path,
                          code_block_id=number, transformed=False)
        db.insert(EnvironmentAttr, trial_id=tid, id=1, name="PWD",
                  value=pwd or os.path.join(self.project,
                                            self.sub).rstrip("/"))
        for number, (path, before, after) in enumerate(accesses, 1):
            db.insert(FileAccess, trial_id=tid, id=number, name=path,
                      mode="r", buffering="default",
                      content_hash_before=self.put(before),
                      content_hash_after=self.put(after),
                      checkpoint=float(number), activation_id=1)

    def write(self, name, data):
        """Current content"""
        if data is not None:
            self.fs.create(name, data)

    def files(self):
        """All the files, but the ones of the store"""
        return {name: data for name, data in self.fs.files_below().items()
                if "/.noworkflow" not in name}

    def restore(self, trial, flags=NORMAL, file=None, dir=None):
        command = cmd_restore.Restore()
        args = Namespace(trial=trial, dir=dir, file=file, message=None,
                         content_engine=None, func=command.execute, **flags)
        self.messages[:] = []
        command.execute(args)
        return list(self.messages)

    def stored(self, data):
        """Is the content in the store?"""
        for code_hash in self.hashing.known:
            if len(code_hash[0]) == len(data) and bool(
                    self.sx.eq(code_hash[0], data)):
                path = os.path.join(self.engine.content_path,
                                    code_hash[1][:2], code_hash[1][2:])
                if not os.path.isfile(path):
                    return False
                found = self.engine.get(code_hash[1])
                return len(found) == len(data) and self.sx.eq(found, data)
        return False


def same(sx, left, right):
    """Have files the same content? (None: absent)"""
    if left is None or right is None:
        return left is right
    return len(left) == len(right) and sx.eq(left, right)


def verify(place, before, expected, label):
    """The files have the expected contents and what is gone is stored"""
    sx = place.sx
    after = place.files()
    for name in sorted(set(before) | set(after) | set(expected)):
        want = expected[name] if name in expected else before.get(name)
        kind = "selected" if name in expected else "other"
        sx.check(same(sx, after.get(name), want),
                 "%s: content of %s files" % (label, kind), name=name,
                 found=after.get(name), expected=want,
                 messages=place.messages)
        old = before.get(name)
        if old is not None and not same(sx, after.get(name), old):
            sx.check(place.stored(old), label + ": previous contents are "
                     "recoverable", name=name, content=old)
    return after


def cell(sx, key, size=1, absent=True, alphabet="ab"):
    """Content of a file, or None"""
    if absent and sx.choose(key + ".absent", [False, True]):
        return None
    return sx.bytes(key, alphabet, 0, size)


FLAGS = [NORMAL, dict(NORMAL, skip_script=True),
         dict(NORMAL, skip_local=True), dict(NORMAL, skip_access=True)]
# name of the access in the project
NAMES = {
    "d": lambda place: "d", "g/d": lambda place: "g/d",
    "absolute": lambda place: os.path.join(place.project, place.sub, "d"),
    "dots": lambda place: "./g/../d",
}


def tasks():
    result = []
    for sub in ("", "sub"):
        for what in ("script", "module"):
            result.append(("%s,%s" % (what, sub), {
                "what": what, "sub": sub, "access": "d"}))
        for name in sorted(NAMES):
            result.append(("access,%s,%s" % (name, sub), {
                "what": "access", "sub": sub, "access": name}))
    return result


@harness("R07", params=tasks(), budget=(90, 600), reach=["restored",
                                                         "backup"])
def whole(sx, what, sub, access):
    """Restore a trial: symbolic contents of a file in the restored trial, in
    the last trial and in the disk; the others are fixed"""
    cwd = sx.choose("cwd", ["p", "q"] if not sub else ["p/sub", "q"])
    place = Place(sx, sub, cwd)
    use_dir = cwd != "p" or bool(sub)
    pre = "p/" + sub + "/" if sub else "p/"
    flags = sx.choose("flags", FLAGS)
    first = cell(sx, "recorded", absent=what != "script")
    alphabet = "ab" if what == "access" else "a\r\xff"
    last = b"ab" if what != "access" else cell(sx, "last")
    name = NAMES[access](place)
    real = os.path.normpath(os.path.join("/" + pre, {
        "absolute": "d", "dots": "d"}.get(access, access))).lstrip("/")
    script, module, data = b"s1", b"m1", b"d1"
    script2, module2, data2 = b"s2", b"m2", b"d2"
    if what == "script":
        script, script2 = first, last
    elif what == "module":
        module, module2 = first, last
    else:
        data, data2 = first, last
    path = "m.py"
    if cwd == "q":
        path = os.path.join(place.project, sub, path)
    place.trial("t1", 1, script, [(path, module)], [
        (name, data, b"d3"), ("../q/x" if not sub else "../../q/x", b"x1",
                              b"x2"),
        (place.fs.path("p2/y"), b"y1", None), (name, b"d4", b"d5")])
    place.trial("t2", 2, script2, [(path, module2)], [
        (name, data2, b"d6"), ("e", b"e1", b"e2")])
    if sx.choose("head", [False, True]):
        place.db.insert(Head, trial_id="t1", script="s.py")
    current = cell(sx, "current", 1, alphabet=alphabet)
    contents = {
        pre + "s.py": current if what == "script" else b"s2",
        pre + "m.py": current if what == "module" else b"m2",
        real: current if what == "access" else b"d2",
        pre + "e": b"e2", "q/x": b"x3", "p2/y": b"y2", "q/d": b"qd",
        "q/s.py": b"qs"}
    for path, value in sorted(contents.items()):
        place.write(path, value)
    before = place.files()
    place.restore("t1", flags, dir=place.project if use_dir else None)
    expected = {}
    if not flags["skip_script"]:
        expected[pre + "s.py"] = script
    if not flags["skip_local"] and module is not None:
        expected[pre + "m.py"] = module
    if not flags["skip_access"]:
        expected[real] = data
    after = verify(place, before, expected, "restore")
    sx.reach("restored")
    if data is None and not flags["skip_access"]:
        sx.reach("removed")
    backups = [row for row in place.db.rows(Trial)
               if row["status"] == "backup"]
    sx.check(len(backups) <= 1, "one backup", found=len(backups))
    if not backups:
        # what is gone was in the last trial
        return
    sx.reach("backup")
    sx.check(backups[0]["script"] == "s.py", "script of the backup")
    # the backup gives the selected files of the last trial
    place.restore(backups[0]["id"], flags,
                  dir=place.project if use_dir else None)
    wanted = {}
    if not flags["skip_script"] and before.get(pre + "s.py") is not None:
        wanted[pre + "s.py"] = before[pre + "s.py"]
    if not flags["skip_local"] and before.get(pre + "m.py") is not None:
        wanted[pre + "m.py"] = before[pre + "m.py"]
    if not flags["skip_access"]:
        wanted[real] = before.get(real)
    verify(place, after, wanted, "backup")


@harness("R07", params=[("%d" % n, {"extra": n}) for n in (0, 1)] + [
    ("2", {"extra": 2}, {"tiers": ("thorough",)})],
    budget=(90, 600), reach=["restored", "backup"])
def shared(sx, extra):
    """Accesses to the script, to a module or to each other's file, with
    contents that may be equal"""
    place = Place(sx)
    script, module = sx.bytes("script", "ab", 1, 1), cell(sx, "module")
    contents = {"p/s.py": script, "p/m.py": module}
    accesses = []
    for number in range(1 + extra):
        name = sx.choose("name%d" % number, ["s.py", "m.py", "d"]
                         if number == 0 else ["./d", "m.py"])
        accesses.append((name, cell(sx, "before%d" % number) if number == 0
                         else sx.bytes("before%d" % number, "ab", 1, 1),
                         b"after"))
    place.trial("t1", 1, script, [("m.py", module)], accesses)
    current = {"p/s.py": b"a"}
    for name in ("p/s.py", "p/m.py")[extra:]:
        current[name] = sx.bytes("current" + name[2:], "ab", 1, 1)
    current["p/d"] = b"a"
    for name, data in sorted(current.items()):
        place.write(name, data)
    before = place.files()
    place.restore("t1", dir=place.project)
    expected = {"p/s.py": script}
    if module is not None:
        expected["p/m.py"] = module
    seen = set()
    for name, data, _ in accesses:
        name = "p/" + name.replace("./", "")
        if name not in seen and name != "p/s.py":
            expected[name] = data
        seen.add(name)
    after = verify(place, before, expected, "restore")
    sx.reach("restored")
    backups = [row for row in place.db.rows(Trial)
               if row["status"] == "backup"]
    if not backups:
        for name in expected:
            sx.check(same(sx, before.get(name), after.get(name)),
                     "changes are in the backup", name=name)
        return
    sx.reach("backup")
    place.restore(backups[0]["id"], dir=place.project)
    verify(place, after, {name: before[name] for name in expected},
           "backup")


@harness("R07", params=[(path, {"path": path})
                        for path in ("s.py", "m.py", "d", "g/d", "e",
                                     "absolute", "none")],
         budget=(90, 600), reach=["decided"])
def single(sx, path):
    """Restore a version of a file"""
    cwd = sx.choose("cwd", ["p", "q"]) if path in ("d", "s.py") else "q"
    place = Place(sx, "", cwd)
    script, module = sx.bytes("script", "ab", 1, 1), b"m1"
    before, after = b"b", b"a"
    if path in ("d", "absolute", "g/d"):
        before, after = cell(sx, "before"), sx.bytes("after", "ab", 1, 1)
    place.trial("t1", 1, script, [("m.py", module)], [
        ("d", before, after), ("g/d", b"g1", before), ("d", after, b"d3"),
        ("../q/x", b"x1", b"x2")])
    place.trial("t2", 2, b"s2", [("m.py", b"m2")], [
        ("d", b"d2", b"d6"), ("e", b"e1", b"e2")])
    current = cell(sx, "current")
    given = {"absolute": os.path.join(place.project, "d"),
             "none": "n"}.get(path, path)
    target = sx.choose("target", [None, "new/t", "d", "s.py", "g/d"])
    real = "p/" + (target or {"absolute": "d", "none": "n"}.get(path, path))
    contents = {"p/s.py": b"s3", "p/m.py": b"m3", "p/d": b"d4",
                "q/d": b"qd", "q/x": b"x3", "p/g/d": None}
    contents[real] = current
    for name, value in sorted(contents.items()):
        place.write(name, value)
    versions = {
        "s.py": [script], "m.py": [module],
        "d": [before, after, after, b"d3"], "g/d": [b"g1", before],
        "e": [], "none": []}[{"absolute": "d"}.get(path, path)]
    number = sx.choose("id", [None, 1, 2, 4, 5, 9])
    position = 1 if number is None else number
    args = [given]
    if number is not None:
        args = ["-i", str(number)] + args
    if target is not None:
        args += ["-t", target]
    was = place.files()
    try:
        messages = place.restore("t1", file=args,
                                 dir=place.project if cwd == "q" else None)
    except OSError as exc:
        # there is nothing to remove
        messages = [str(exc)]
    sx.check(bool(messages), "something is reported")
    if position <= len(versions):
        want = versions[position - 1]
        verify(place, was, {real: want}, "single")
    else:
        verify(place, was, {}, "absent version")
        sx.check("File version not found!" in messages,
                 "absent versions are reported", messages=messages)
    sx.check(not [row for row in place.db.rows(Trial)
                  if row["status"] == "backup"], "no backup of one file")
    sx.reach("decided")


@harness("R07", params=[(mode, {"mode": mode})
                        for mode in ("whole", "single")],
         budget=(60, 300), reach=["refused", "skipped"])
def obstacle(sx, mode):
    """Contents that are not in the store and directories that are in the
    place of files"""
    place = Place(sx)
    first, second = sx.bytes("first", "ab", 1, 1), sx.bytes(
        "second", "ab", 1, 1)
    place.trial("t1", 1, b"s1", [("m.py", first)], [
        ("d", second, b"d2"), ("g/d", b"g1", b"g2")])
    place.write("p/s.py", b"s2")
    kind = sx.choose("kind", ["directory", "file", "missing"])
    lost = sx.choose("lost", ["p/d", "p/m.py"])
    if kind == "directory":
        place.fs.make(place.fs.path(lost))
        place.write(lost + "/z", b"z")
    elif kind == "file":
        lost = "p/g/d"
        place.write("p/g", b"g3")
    else:
        place.write(lost, b"c")
        data = second if lost == "p/d" else first
        code_hash = place.put(data)
        os.remove(os.path.join(place.engine.content_path, code_hash[:2],
                               code_hash[2:]))
    before = place.files()
    try:
        messages = place.restore(
            "t1", dir=place.project,
            file=[lost[2:]] if mode == "single" else None)
    except (OSError, KeyError) as exc:
        messages = [str(exc)]
    sx.check(bool(messages), "the problem is reported")
    after = place.files()
    if kind == "missing":
        # the other files may have been restored
        for name in before:
            want = [before[name]]
            if mode == "whole" and name == "p/s.py":
                want.append(b"s1")
            if name == "p/d" and sx.eq(first, second) is not True:
                want.append(second)
            if name == lost:
                want = [before[name]]
            sx.check(sx.or_(*[same(sx, after.get(name), w) for w in want]),
                     "an absent content is not replaced", name=name,
                     found=after.get(name), expected=want)
        sx.reach("refused")
        return
    expected = {}
    if mode == "whole":
        expected = {"p/s.py": b"s1", "p/m.py": first, "p/d": second,
                    "p/g/d": b"g1"}
        expected.pop(lost)
    verify(place, before, expected, "obstacle")
    sx.reach("skipped")
