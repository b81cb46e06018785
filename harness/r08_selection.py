"""R08: restore and listing pick the access that the user asked for"""
import os
from datetime import datetime, timedelta

from symex.api import harness
from symex import hlib
from symex.models import to_int
from symex.symdb import Handle

from noworkflow.now.cmd import cmd_restore
from noworkflow.now.persistence.models import (
    CodeBlock, CodeComponent, EnvironmentAttr, FileAccess, Module, Trial)

PROJECT = "/w/p"
START = datetime(2016, 4, 8, 12, 30, 5)


def parts(text):
    """Components of a path"""
    result = [""]
    for char in text:
        if bool(char == "/"):
            result.append("")
        else:
            result[-1] = result[-1] + char
    return result


def resolve(directory, text):
    """Components of the file that a path refers to (oracle)"""
    found = [] if len(text) and bool(text[0] == "/") else list(directory)
    for part in parts(text):
        if len(part) == 0 or (len(part) == 1 and bool(part == ".")):
            continue
        if len(part) == 2 and bool(part == ".."):
            found = found[:-1]
        else:
            found.append(part)
    return found


def same(sx, left, right):
    """Do the components refer to the same file?"""
    if len(left) != len(right):
        return False
    for one, two in zip(left, right):
        if len(one) != len(two) or not bool(sx.eq(one, two)):
            return False
    return True


def inside(sx, found):
    """Components relative to the project, or None"""
    base = PROJECT.split("/")[1:]
    if len(found) < len(base) or not same(sx, found[:len(base)], base):
        return None
    return found[len(base):]


class Recorded(object):
    """Trial in the database"""

    def __init__(self, sx, db, tid, script="s.py", main=True, pwd=None,
                 start=START):
        self.sx = sx
        self.db = db
        self.id = tid
        self.start = start
        self.script = (script, "hs" + tid) if main else None
        self.modules = []      # (path, name, hash)
        self.accesses = []     # (name, before, after, checkpoint)
        self.components = 1
        self.pwd = PROJECT.split("/")[1:]
        self.sequence = db.insert(
            Trial, id=tid, script=script, start=start, finish=None,
            command="c", path=PROJECT, status="finished",
            main_id=1 if main else None)
        if main:
            self.block("hs" + tid)
        if pwd is not None:
            db.insert(EnvironmentAttr, trial_id=tid, id=1, name="PWD",
                      value="/elsewhere")
            db.insert(EnvironmentAttr, trial_id=tid, id=2, name="PWD",
                      value=pwd)
            self.pwd = pwd.split("/")[1:]

    def block(self, code_hash):
        number = self.components
        self.components += 1
        self.db.insert(CodeComponent, trial_id=self.id, id=number,
                       name="x", type="script", mode="w",
                       first_char_line=1, first_char_column=0,
                       last_char_line=1, last_char_column=0,
                       container_id=None)
        self.db.insert(CodeBlock, trial_id=self.id, id=number,
                       code_hash=code_hash, docstring="")
        return number

    def module(self, path, code_hash):
        number = len(self.modules) + 1
        block = None if code_hash is None else self.block(code_hash)
        self.db.insert(Module, trial_id=self.id, id=number,
                       name="m%d" % number, version="1", path=path,
                       code_block_id=block, transformed=False)
        self.modules.append((path, "m%d" % number, code_hash))

    def access(self, name, before, after, checkpoint):
        number = len(self.accesses) + 1
        self.db.insert(FileAccess, trial_id=self.id, id=number, name=name,
                       mode="r", buffering="default",
                       content_hash_before=before, content_hash_after=after,
                       checkpoint=checkpoint, activation_id=1)
        self.accesses.append((name, before, after, checkpoint))

    # oracle

    def files(self, script=True, local=True, access=True):
        """(components in the project, possible contents) of each file"""
        result = []

        def add(found, kind, info):
            rel = inside(self.sx, found)
            if rel is None:
                return
            for other in result:
                if same(self.sx, other[0], rel):
                    if other[1] == "module" and kind == "access":
                        # what was there before the first access
                        other[1] = kind
                        other[2] = [info]
                    elif other[1] == "module" and kind == "module":
                        other[2].append(info)
                    return
            result.append([rel, kind, [info]])
        base = PROJECT.split("/")[1:]
        if script and self.script:
            add(resolve(base, self.script[0]), "script", self.script[1])
        if local:
            for path, _, code_hash in self.modules:
                if path is not None and code_hash is not None:
                    add(resolve(base, path), "module", code_hash)
        if access:
            for name, before, _, _ in self.accesses:
                add(resolve(self.pwd, name), "access", before)
        return result

    def versions(self, path=None):
        """Contents of a file in the order of the accesses"""
        base = PROJECT.split("/")[1:]
        wanted = None if path is None else resolve(base, path)

        def match(found):
            return wanted is None or same(self.sx, found, wanted)
        result = []
        if self.script and match(resolve(base, self.script[0])):
            result.append((self.script[0], self.script[1]))
        for name, _, code_hash in self.modules:
            if name is None:
                continue
            found = resolve(base, name)
            if inside(self.sx, found) is not None and match(found):
                result.append((name, code_hash))
        for name, before, after, _ in self.accesses:
            if match(resolve(self.pwd, name)):
                result.append((name, before))
                result.append((name, after))
        return result


PREFIXES = {"relative": "", "absolute": "/w/p/", "sibling": "/w/p2/",
            "parent": "../", "dot": "./d/../"}


def any_path(sx, key, prefixes, size=2, alphabet="ab./"):
    """Path with a symbolic end"""
    text = sx.str(key, alphabet, 1, size)
    kind = sx.choose(key + ".prefix", list(prefixes))
    sx.assume(sx.not_(sx.eq(text[0], "/")))
    return PREFIXES[kind] + text


def fill(sx, recorded, accesses, modules, size, prefixes=("relative",
                                                         "absolute",
                                                         "sibling")):
    for index in range(modules):
        path = sx.choose("module%d.kind" % index, ["path", None])
        if path is not None:
            path = any_path(sx, "module%d" % index, prefixes, size, "ab.")
        recorded.module(path, sx.choose("module%d.hash" % index,
                                        ["hm%d" % index, None]))
    for index in range(accesses):
        recorded.access(any_path(sx, "access%d" % index, prefixes, size),
                        "hb%d" % index, "ha%d" % index, float(index))


def check_files(sx, recorded, trial, **flags):
    expected = recorded.files(**flags)
    found = trial.versioned_files(**flags)
    found = list(found.items())
    sx.check(len(found) == len(expected), "one entry for each file",
             found=[k for k, _ in found], expected=expected)
    for rel, kind, hashes in expected:
        text = "."
        for number, part in enumerate(rel):
            text = part if number == 0 else text + "/" + part
        mine = [info for path, info in found
                if len(path) == len(text) and bool(sx.eq(path, text))]
        sx.check(len(mine) == 1, "every file has its entry", path=text,
                 found=[k for k, _ in found])
        if len(mine) == 1:
            sx.check(mine[0]["type"] == kind, "kind of file", path=text,
                     found=mine[0]["type"], expected=kind)
            sx.check(mine[0]["code_hash"] in hashes, "initial content",
                     path=text, found=mine[0]["code_hash"], expected=hashes)
    sx.reach("files")


def check_versions(sx, recorded, trial, path):
    expected = recorded.versions(path)
    found = [(name, info["code_hash"])
             for name, info in trial.iterate_accesses(path)]
    sx.check(len(found) == len(expected), "versions of the file", path=path,
             found=found, expected=expected)
    for one, two in zip(found, expected):
        sx.check(len(one[0]) == len(two[0]) and sx.eq(one[0], two[0]),
                 "name of the version", path=path, found=one, expected=two)
        sx.check(one[1] == two[1], "order of the versions", path=path,
                 found=one, expected=two)
    sx.reach("versions")


PWDS = [None, "/w/p", "/w", "/w/p/a"]


def sizes(quick, thorough):
    return [("%d,%d,%d" % item, dict(zip(("accesses", "modules", "size"),
                                         item)),
             {"tiers": ("quick", "thorough") if item in quick
              else ("thorough",)}) for item in quick + thorough]


@harness("R08", params=sizes([(1, 0, 3), (2, 0, 1), (1, 1, 1), (0, 1, 3)],
                             [(1, 0, 4), (2, 0, 2), (1, 1, 2), (0, 2, 2),
                              (3, 0, 1)]),
         budget=(120, 900), reach=["files"])
def files(sx, accesses, modules, size):
    """Files of a trial with symbolic paths of modules and accesses"""
    db = Handle(sx)
    recorded = Recorded(sx, db, "t",
                        pwd=sx.choose("pwd", PWDS) if accesses else None)
    fill(sx, recorded, accesses, modules, size)
    check_files(sx, recorded, Trial("t"))


@harness("R08", params=[("", {})], budget=(120, 400), reach=["files"])
def kinds(sx):
    """Kinds of files, that may refer to the same file, and options"""
    db = Handle(sx)
    recorded = Recorded(sx, db, "t", script="a",
                        main=sx.choose("main", [True, False]))
    for index in range(2):
        recorded.module(sx.str("module%d" % index, "ab", 1, 1),
                        sx.choose("module%d.hash" % index, ["hm", None]))
    for index in range(2):
        recorded.access(
            sx.str("access%d" % index, "ab", 1, 1),
            sx.choose("access%d.before" % index, ["hb%d" % index, None]),
            "ha%d" % index, float(index))
    flags = sx.choose("flags", [{}, {"script": False}, {"local": False},
                                {"access": False},
                                {"script": False, "access": False}])
    check_files(sx, recorded, Trial("t"), **flags)


@harness("R08", params=sizes([(1, 0, 2), (2, 0, 1), (1, 1, 1)],
                             [(1, 0, 3), (2, 0, 2), (1, 1, 2), (3, 0, 1)]),
         budget=(120, 900), reach=["versions"])
def versions(sx, accesses, modules, size):
    """Versions of a symbolic path"""
    db = Handle(sx)
    recorded = Recorded(sx, db, "t", pwd=sx.choose("pwd", PWDS[1:3]))
    fill(sx, recorded, accesses, modules, size, ("relative", "absolute"))
    trial = Trial("t")
    path = any_path(sx, "path", ("relative", "absolute", "dot"), size) \
        if sx.choose("filter", [True, False]) else None
    check_versions(sx, recorded, trial, path)


@harness("R08", params=[("%d" % n, {"size": n},
                         {"tiers": ("quick", "thorough") if n < 5
                          else ("thorough",)}) for n in (3, 4, 5)],
         budget=(90, 400), reach=["internal"])
def internal(sx, size):
    """Is an access or a module part of the project?"""
    db = Handle(sx)
    recorded = Recorded(sx, db, "t", pwd=sx.choose("pwd", PWDS))
    name = any_path(sx, "name", PREFIXES, size)
    recorded.access(name, "b", "a", 1.0)
    recorded.module(name, "m")
    trial = Trial("t")
    access = list(trial.file_accesses)[0]
    sx.check(bool(access.is_internal) == (inside(
        sx, resolve(recorded.pwd, name)) is not None),
        "internal accesses", name=name)
    sx.check(len(list(trial.local_modules)) == (inside(
        sx, resolve(PROJECT.split("/")[1:], name)) is not None),
        "local modules", name=name)
    sx.reach("internal")


class Contents(object):
    """Content database with some hashes"""

    def __init__(self, hashes):
        self.hashes = hashes

    def find_subhash(self, prefix):
        for content_hash in self.hashes:
            if content_hash.startswith(prefix):
                return content_hash
        return None


@harness("R08", params=[("%d" % n, {"accesses": n},
                         {"tiers": ("quick", "thorough") if n < 3
                          else ("thorough",)}) for n in (1, 2, 3)],
         budget=(90, 400), reach=["number", "refused"])
def number(sx, accesses):
    """Versions selected by the number of the access"""
    db = Handle(sx)
    # other trial, that is not selected
    other = Recorded(sx, db, "u", start=START + timedelta(days=1))
    other.access("a", "xb", "xa", 1.0)
    recorded = Recorded(sx, db, "t")
    for index in range(accesses):
        recorded.access(sx.str("access%d" % index, "ab", 1, 1),
                        "hb%d" % index, "ha%d" % index, float(index))
    command = cmd_restore.Restore()
    command.trial = Trial("t")
    hlib.attr_patch(sx, cmd_restore, "content", Contents([]))
    path = sx.choose("path", ["a", "/w/p/a", "s.py", "w"])
    selector = sx.str("selector", "0124-", 1, 2)
    found = command.find_file(sx.choose("trial", ["t", None]), path, selector)
    expected = recorded.versions(path)
    digits = all(bool(sx.not_(sx.eq(c, "-"))) for c in selector)
    position = to_int(selector) if digits else 0
    if digits and 0 < position <= len(expected):
        want = [version for index, version in enumerate(expected)
                if bool(position == index + 1)][0]
        sx.check(found is not None and found[1] == want[1],
                 "version with the number", path=path, selector=selector,
                 found=found, expected=want)
        sx.reach("number")
    else:
        sx.check(found is None, "other numbers are refused", path=path,
                 selector=selector, found=found)
        sx.reach("refused")


@harness("R08", params=[("%d" % n, {"size": n},
                         {"tiers": ("quick", "thorough") if n < 8
                          else ("thorough",)}) for n in (5, 6, 7, 8)],
         budget=(60, 400), reach=["hash", "refused"])
def prefix(sx, size):
    """Versions selected by a prefix of their hash"""
    db = Handle(sx)
    recorded = Recorded(sx, db, "t")
    hashes = ["abcab" + sx.str("hash%d" % i, "abc", 3, 3) for i in range(2)]
    recorded.access("a", hashes[0], hashes[1], 1.0)
    command = cmd_restore.Restore()
    command.trial = Trial("t")
    hlib.attr_patch(sx, cmd_restore, "content", Contents(hashes))
    selector = "abca"[:size] + sx.str("selector", "abcd", size - 4, size - 4)
    found = command.find_file(sx.choose("trial", ["t", None]), "a", selector)
    matching = [h for h in hashes if bool(sx.eq(h[:size], selector))]
    if matching and size >= 6:
        sx.check(found is not None and found[0] == "a" and sx.or_(
            *[sx.eq(found[1], h) for h in matching]), "hash with the prefix",
            selector=selector, found=found, hashes=hashes)
        sx.reach("hash")
    elif not matching:
        sx.check(found is None, "other prefixes are refused",
                 selector=selector, found=found)
        sx.reach("refused")
    else:
        sx.reach("hash")
        sx.reach("refused")


def full(when):
    return when.strftime("%Y-%m-%d %H:%M:%S.%f")


CUTS = [4, 7, 10, 13, 16, 19, 21, 23, 26]


@harness("R08", params=[("%d" % n, {"accesses": n}, {
    "tiers": ("quick", "thorough") if n < 3 else ("thorough",)})
    for n in (1, 2, 3)], budget=(90, 400), reach=["moment", "refused"])
def moment(sx, accesses):
    """Versions selected by the moment of the access"""
    db = Handle(sx)
    days = [0, 40, 400]
    other = Recorded(sx, db, "u", start=START + timedelta(
        days=sx.choose("other.day", days)))
    recorded = Recorded(sx, db, "t", start=START + timedelta(
        days=sx.choose("day", days)))
    everything = []
    for index in range(accesses):
        key = "access%d" % index
        owner = other if sx.choose(key + ".other", [False, True]) \
            else recorded
        name = sx.str(key, "ab", 1, 1)
        checkpoint = sx.choose(key + ".moment", [0.0, 0.25, 61.0])
        owner.access(name, "b%d" % index, "a%d" % index, checkpoint)
        everything.append((owner, name, "b%d" % index, "a%d" % index,
                           owner.start + timedelta(seconds=checkpoint)))
    command = cmd_restore.Restore()
    command.trial = Trial("t")
    hlib.attr_patch(sx, cmd_restore, "content", Contents([]))
    base = START + timedelta(days=sx.choose("wanted.day", days + [3]),
                             microseconds=sx.choose("wanted.part",
                                                    [0, 250000]))
    text = full(base)[:sx.choose("cut", CUTS)]
    side = sx.choose("side", ["", "B|", "A|"])
    tid = sx.choose("trial", ["t", None])
    path = sx.str("path", "abs", 1, 1)
    if bool(sx.eq(path, "s")):
        path = "s.py"
    found = command.find_file(tid, path, side + text)
    options = []
    for owner in (recorded, other):
        if path == "s.py" and (tid is None or owner is recorded) and full(
                owner.start).startswith(text):
            options.append(owner.script[1])
    for owner, name, before, after, when in everything:
        if (tid is None or owner is recorded) and len(name) == len(
                path) and bool(sx.eq(name, path)) and full(
                    when).startswith(text):
            options.append(after if side == "A|" else before)
    if options:
        sx.check(found is not None and found[1] in options,
                 "version of the moment", path=path, text=side + text,
                 found=found, options=options)
        sx.reach("moment")
    else:
        sx.check(found is None, "other moments are refused", path=path,
                 text=side + text, found=found)
        sx.reach("refused")
