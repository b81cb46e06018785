"""File system with symbolic contents and faults

The functions of os, io and builtins that receive paths below the root of the
file system are replaced: in symbolic runs they work on a tree in memory whose
files may have symbolic contents, in concrete runs they call the original
functions on a scratch directory.  Each operation that changes files is a
step, and a fault can be set to happen in a step: an error of the operating
system, or a crash, after which nothing happens until reboot().  Data written
by a file object reaches the file in its flush (or close): a fault there
persists only a prefix of the data.
"""
from __future__ import annotations

import builtins
import codecs
import errno
import io
import os
import shutil
import stat
import sys
import tempfile

from .core import Sym, SymBytes, mk_bytes, isinstance_

VIRTUAL = "/sx/fs"


class Crash(BaseException):
    """The process died"""


def is_bytes(value):
    return isinstance_(value, (bytes, bytearray, memoryview, SymBytes))


def error(number, path):
    return OSError(number, os.strerror(number), path)


class Node(object):
    """File or directory (data is None)"""

    __slots__ = ("data", "children", "ino", "mtime")
    count = 0

    def __init__(self, data=None):
        Node.count += 1
        self.ino = Node.count
        self.data = data
        self.children = {} if data is None else None
        self.mtime = 0


class Stat(object):
    """Result of stat"""

    def __init__(self, node):
        self.st_mode = (stat.S_IFDIR | 0o755 if node.data is None
                        else stat.S_IFREG | 0o644)
        self.st_size = 0 if node.data is None else len(node.data)
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_nlink = 1
        self.st_uid = self.st_gid = 0
        self.st_atime = self.st_ctime = self.st_mtime = node.mtime
        self.st_mtime_ns = int(node.mtime * 10 ** 9)


class Entry(object):
    """Result of scandir"""

    def __init__(self, path, name, node):
        self.name = name
        self.path = os.path.join(path, name) if path else name
        self.node = node

    def is_dir(self, follow_symlinks=True):
        return self.node.data is None

    def is_file(self, follow_symlinks=True):
        return self.node.data is not None

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def stat(self, follow_symlinks=True):
        return Stat(self.node)

    def inode(self):
        return self.node.ino

    def __fspath__(self):
        return self.path


class Listing(list):
    """Iterator of scandir"""

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None

    def __iter__(self):
        return self

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)

    def close(self):
        pass


class File(object):
    """Open file. Written data is persisted when it is flushed"""

    def __init__(self, fs, path, mode, encoding=None, descriptor=None,
                 newline=None):
        self.fs = fs
        self.name = path
        self.mode = mode
        self.path = path
        self.text = "b" not in mode
        self.encoding = encoding if encoding not in (None, "locale") else "utf-8"
        self.descriptor = descriptor
        self.closed = False
        self.dirty = False
        self.writable_ = any(c in mode for c in "wax+")
        self.readable_ = "r" in mode or "+" in mode
        self.data = fs.load(path)
        self.base = self.data      # what is in the file
        self.pos = len(self.data) if "a" in mode else 0
        fs.files.append(self)

    # context and iteration

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if len(line) == 0:
            raise StopIteration
        return line

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def fileno(self):
        if self.descriptor is None:
            self.descriptor = self.fs.descriptor(self.path)
        return self.descriptor

    def isatty(self):
        return False

    # reading

    def read(self, size=-1):
        self._check()
        if not self.readable_:
            raise io.UnsupportedOperation("not readable")
        end = len(self.data) if size is None or size < 0 else self.pos + size
        result = self.data[self.pos:end]
        self.pos += len(result)
        return result.decode(self.encoding) if self.text else result

    def readinto(self, buffer):
        data = bytes(self.read(len(buffer)))
        buffer[:len(data)] = data
        return len(data)

    def readline(self, size=-1):
        self._check()
        end = self.pos
        while end < len(self.data):
            end += 1
            if bool(self.data[end - 1] == 10):
                break
        result = self.data[self.pos:end]
        self.pos = end
        return result.decode(self.encoding) if self.text else result

    def readlines(self, hint=-1):
        return list(self)

    # writing

    def write(self, data):
        self._check()
        if not self.writable_:
            raise io.UnsupportedOperation("not writable")
        size = len(data)
        if self.text:
            if is_bytes(data):
                raise TypeError("write() argument must be str, not bytes")
            data = data.encode(self.encoding)
        elif not is_bytes(data):
            raise TypeError("a bytes-like object is required")
        if not isinstance_(data, SymBytes):
            data = bytes(data)
        if "a" in self.mode:
            self.pos = len(self.data)
        old = self.data
        if self.pos > len(old):
            old = old + b"\0" * (self.pos - len(old))
        self.data = old[:self.pos] + data + old[self.pos + len(data):]
        self.pos += len(data)
        self.dirty = True
        return size

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self._check()
        if self.dirty:
            self.dirty = False
            self.fs.persist(self.path, self.base, self.data)
            self.base = self.data

    def seek(self, offset, whence=0):
        self.pos = offset + {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        self.data = self.data[:size]
        self.dirty = True
        return size

    def close(self):
        if not self.closed:
            try:
                if not self.fs.dead:
                    self.flush()
            finally:
                self.closed = True
                if self.descriptor is not None:
                    self.fs.descriptors.pop(self.descriptor, None)

    def __del__(self):
        pass


def classified(fs, path):
    """Text of a path below the root, or None"""
    if isinstance_(path, int) and not isinstance_(path, bool):
        return None
    if type(path) is File:
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        if isinstance_(path, Sym):
            path = fs.sx.concretize(path)
        else:
            return None
    if isinstance_(path, Sym):
        path = fs.sx.concretize(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        path = fs.cwd + "/" + path
    parts = []
    for part in path.split("/"):
        if part == "..":
            if parts:
                parts.pop()
        elif part not in ("", "."):
            parts.append(part)
    full = "/" + "/".join(parts)
    if full == fs.root or full.startswith(fs.root + "/"):
        return full
    return None


class FileSystem(object):
    """File system below a root"""

    def __init__(self, sx, cwd=True):
        self.sx = sx
        self.virtual = sx.symbolic
        self.fault = None        # (kind, step) or None
        self.other = None        # (function, moment): another process
        self.steps = 0
        self.moments = 0
        self.persisted = 0
        self.dead = False
        self.log = []
        self.files = []
        self.descriptors = {}
        self.real = {}
        if self.virtual:
            self.root = VIRTUAL
            self.tree = Node()
        else:
            self.root = os.path.realpath(tempfile.mkdtemp(prefix="sxfs"))
        self.cwd = self.root if cwd else os.getcwd()
        self.install()
        sx.cleanup(self.uninstall)

    # interception

    def install(self):
        self.patched = []
        names = ("stat", "lstat", "mkdir", "rmdir", "remove", "unlink",
                 "rename", "replace", "listdir", "scandir", "access",
                 "open", "chmod", "utime", "link", "symlink", "truncate",
                 "getcwd", "chdir", "close", "fsync", "fdatasync", "write",
                 "read", "fdopen", "fstat")
        for name in names:
            self.real[name] = getattr(os, name)
        self.real["fileopen"] = io.open
        self.real["rmtree"] = shutil.rmtree
        for name in names:
            self.patch(os, name, self.wrap(name))
        opener = self.wrap("fileopen")
        self.patch(io, "open", opener)
        self.patch(builtins, "open", opener)
        self.patch(codecs, "open", self.codecs_open)
        self.patch(shutil, "rmtree", self.rmtree)
        from noworkflow.now.persistence.content import safeopen
        for name, value in [("std_open", opener), ("io_open", opener),
                            ("codecs_open", codecs.open),
                            ("os_open", os.open)]:
            if hasattr(safeopen, name):
                self.patch(safeopen, name, value)

    def patch(self, module, name, value):
        self.patched.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def uninstall(self):
        for module, name, value in reversed(self.patched):
            setattr(module, name, value)
        self.patched = []
        if not self.virtual:
            shutil.rmtree(self.root, ignore_errors=True)

    def wrap(self, name):
        method = getattr(self, "fs_" + name)
        real = self.real[name]

        def wrapper(*args, **kwargs):
            if name in ("getcwd", "chdir"):
                return method(*args, **kwargs)
            if args and type(args[0]) is int and args[0] in self.descriptors:
                return method(*args, **kwargs)
            if name in ("close", "fsync", "fdatasync", "write", "read",
                        "fdopen", "fstat"):
                return real(*args, **kwargs)
            path = args[0] if args else kwargs.get(
                "path", kwargs.get("file", kwargs.get("src", ".")))
            full = classified(self, path)
            if full is None:
                return real(*args, **kwargs)
            if args:
                args = args[1:]
            kwargs.pop("path", None)
            kwargs.pop("file", None)
            kwargs.pop("dir_fd", None)
            if name in ("scandir", "listdir"):
                return method(full, path)
            return method(full, *args, **kwargs)
        wrapper.__name__ = name
        return wrapper

    # steps and faults

    def step(self, name, path):
        """Operation that changes files. Return the kind of fault"""
        self.alive()
        self.steps += 1
        self.log.append((name, os.path.relpath(path, self.root)
                         if self.virtual else path[len(self.root) + 1:]))
        if self.fault is not None:
            kind, moment = self.fault
            if bool(self.sx.eq(moment, self.steps)):
                self.sx.reach("fault in " + name)
                return kind
        return None

    def alive(self):
        """Any operation of the process"""
        if self.dead:
            raise Crash()
        self.moments += 1
        if self.other is not None:
            other, moment = self.other
            if bool(self.sx.eq(moment, self.moments)):
                self.other = None
                self.sx.reach("other process")
                other()

    def happen(self, kind, path):
        if kind == "crash":
            self.dead = True
            raise Crash()
        if kind is not None:
            raise error(errno.ENOSPC, path)

    def reboot(self):
        """Start again after a crash"""
        self.dead = False
        self.fault = None
        for fil in self.files:
            fil.closed = True
        self.files = []
        self.descriptors = {}

    # contents

    def find(self, path):
        node = self.tree
        for part in path[len(self.root):].split("/"):
            if part:
                if node is None or node.children is None:
                    return None
                node = node.children.get(part)
        return node

    def parent(self, path):
        base, name = path.rsplit("/", 1)
        node = self.find(base)
        if node is None:
            raise error(errno.ENOENT, path)
        if node.children is None:
            raise error(errno.ENOTDIR, path)
        return node, name

    def exists(self, path):
        if self.virtual:
            return self.find(path) is not None
        return os.path.lexists(path)

    def is_dir(self, path):
        if self.virtual:
            node = self.find(path)
            return node is not None and node.data is None
        try:
            return stat.S_ISDIR(self.real["stat"](path).st_mode)
        except OSError:
            return False

    def load(self, path):
        if self.virtual:
            node = self.find(path)
            if node is None:
                raise error(errno.ENOENT, path)
            if node.data is None:
                raise error(errno.EISDIR, path)
            return node.data
        with self.real["fileopen"](path, "rb") as fil:
            return fil.read()

    def save(self, path, data):
        if self.virtual:
            node, name = self.parent(path)
            if name in node.children:
                if node.children[name].data is None:
                    raise error(errno.EISDIR, path)
                node.children[name].data = data
            else:
                node.children[name] = Node(data)
        else:
            with self.real["fileopen"](path, "wb") as fil:
                fil.write(data)

    def persist(self, path, base, data):
        """Data reach the file, or a prefix of the new data"""
        kind = self.step("write", path)
        if kind is None:
            if self.virtual and self.find(path) is None:
                return          # file removed while it was open
            self.save(path, data)
            return
        start = len(base) if len(data) >= len(base) else 0
        self.persisted += 1
        count = self.sx.choose("persisted%d" % self.persisted, list(range(
            min(3, len(data) - start) + 1)))
        if self.exists(path):
            self.save(path, data[:start + count])
        self.happen(kind, path)

    # state

    def files_below(self, path=None):
        """Relative path and content of every file"""
        result = {}
        path = path or self.root
        if self.virtual:
            def walk(node, prefix):
                for name in sorted(node.children):
                    child = node.children[name]
                    if child.data is None:
                        walk(child, prefix + name + "/")
                    else:
                        result[prefix + name] = child.data
            node = self.find(path)
            if node is not None and node.data is None:
                walk(node, "")
            return result
        for base, _, names in os.walk(path):
            for name in names:
                full = os.path.join(base, name)
                result[os.path.relpath(full, path)] = self.load(full)
        return result

    def create(self, name, data):
        """Set up a file (no step)"""
        path = os.path.join(self.root, name)
        self.make(os.path.dirname(path))
        self.save(path, data)
        return path

    def make(self, path):
        """Set up a directory (no step)"""
        if self.virtual:
            node = self.tree
            for part in path[len(self.root):].split("/"):
                if part:
                    node = node.children.setdefault(part, Node())
        else:
            missing = []
            while not os.path.isdir(path):
                missing.append(path)
                path = os.path.dirname(path)
            for item in reversed(missing):
                self.real["mkdir"](item)

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    # operations

    def fs_stat(self, path, *args, **kwargs):
        self.alive()
        if not self.virtual:
            return self.real["stat"](path, *args, **kwargs)
        node = self.find(path)
        if node is None:
            raise error(errno.ENOENT, path)
        return Stat(node)

    fs_lstat = fs_stat

    def fs_access(self, path, *args, **kwargs):
        self.alive()
        return self.exists(path)

    def fs_listdir(self, path, given):
        self.alive()
        if not self.virtual:
            return sorted(self.real["listdir"](path))
        node = self.find(path)
        if node is None:
            raise error(errno.ENOENT, path)
        if node.children is None:
            raise error(errno.ENOTDIR, path)
        return sorted(node.children)

    def fs_scandir(self, path, given):
        self.alive()
        if not self.virtual:
            return self.real["scandir"](path)
        names = self.fs_listdir(path, given)
        node = self.find(path)
        given = given if isinstance(given, str) else path
        return Listing(Entry(given, name, node.children[name])
                       for name in names)

    def fs_mkdir(self, path, mode=0o777, **kwargs):
        self.happen(self.step("mkdir", path), path)
        if not self.virtual:
            return self.real["mkdir"](path, mode)
        node, name = self.parent(path)
        if name in node.children:
            raise error(errno.EEXIST, path)
        node.children[name] = Node()

    def fs_rmdir(self, path, **kwargs):
        self.happen(self.step("rmdir", path), path)
        if not self.virtual:
            return self.real["rmdir"](path)
        node, name = self.parent(path)
        if name not in node.children:
            raise error(errno.ENOENT, path)
        child = node.children[name]
        if child.children is None:
            raise error(errno.ENOTDIR, path)
        if child.children:
            raise error(errno.ENOTEMPTY, path)
        del node.children[name]

    def fs_remove(self, path, **kwargs):
        self.happen(self.step("remove", path), path)
        if not self.virtual:
            return self.real["remove"](path)
        node, name = self.parent(path)
        if name not in node.children:
            raise error(errno.ENOENT, path)
        if node.children[name].data is None:
            raise error(errno.EISDIR, path)
        del node.children[name]

    fs_unlink = fs_remove

    def fs_rename(self, path, target, **kwargs):
        other = classified(self, target)
        if other is None:
            raise error(errno.EXDEV, path)
        self.happen(self.step("rename", other), path)
        if not self.virtual:
            return self.real["rename"](path, other)
        node, name = self.parent(path)
        if name not in node.children:
            raise error(errno.ENOENT, path)
        onode, oname = self.parent(other)
        if (oname in onode.children
                and onode.children[oname].data is None):
            raise error(errno.EISDIR, target)
        onode.children[oname] = node.children.pop(name)

    fs_replace = fs_rename

    def fs_link(self, path, target, **kwargs):
        other = classified(self, target)
        self.happen(self.step("link", other), path)
        if not self.virtual:
            return self.real["link"](path, other)
        onode, oname = self.parent(other)
        if oname in onode.children:
            raise error(errno.EEXIST, target)
        onode.children[oname] = self.find(path)

    def fs_symlink(self, path, *args, **kwargs):
        raise error(errno.EPERM, path)

    def fs_chmod(self, path, *args, **kwargs):
        self.alive()

    def fs_utime(self, path, *args, **kwargs):
        self.alive()

    def fs_truncate(self, path, length):
        self.happen(self.step("write", path), path)
        self.save(path, self.load(path)[:length])

    def fs_getcwd(self):
        return self.cwd

    def fs_chdir(self, path):
        self.alive()
        full = classified(self, path)
        if full is None:
            raise error(errno.EACCES, path)
        if not self.is_dir(full):
            raise error(errno.ENOENT, path)
        self.cwd = full

    def rmtree(self, path, ignore_errors=False, onerror=None, **kwargs):
        full = classified(self, path)
        if full is None:
            return self.real["rmtree"](path, ignore_errors, onerror, **kwargs)
        try:
            for name in self.fs_listdir(full, full):
                child = full + "/" + name
                if self.is_dir(child):
                    self.rmtree(child)
                else:
                    self.fs_remove(child)
            self.fs_rmdir(full)
        except OSError:
            if not ignore_errors:
                raise

    # open

    def prepare_open(self, path, mode):
        """Effect of opening a file"""
        self.alive()
        if self.is_dir(path):
            raise error(errno.EISDIR, path)
        exists = self.exists(path)
        if "x" in mode and exists:
            raise error(errno.EEXIST, path)
        if "r" in mode and not exists:
            raise error(errno.ENOENT, path)
        if "w" in mode or not exists:
            self.happen(self.step("open", path), path)
            self.save(path, b"")

    def fs_fileopen(self, path, mode="r", buffering=-1, encoding=None,
                    errors=None, newline=None, closefd=True, opener=None):
        if type(path) is int:
            return self.fs_fdopen(path, mode, buffering, encoding)
        kinds = [c for c in mode if c in "rwax"]
        if (len(kinds) != 1 or not set(mode) <= set("rwaxbt+")
                or len(set(mode)) != len(mode)):
            raise ValueError("invalid mode: %r" % mode)
        if not isinstance(buffering, int):
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type(buffering).__name__)
        if buffering == 0 and "b" not in mode:
            raise ValueError("can't have unbuffered text I/O")
        self.prepare_open(path, mode)
        return File(self, path, mode, encoding)

    def codecs_open(self, filename, mode="r", encoding=None, errors="strict",
                    buffering=-1):
        full = classified(self, filename)
        if full is None:
            return codecs_open(filename, mode, encoding, errors, buffering)
        self.prepare_open(full, mode)
        return File(self, full, mode, encoding)

    def descriptor(self, path, flags=0):
        number = 1000 + len(self.descriptors)
        while number in self.descriptors:
            number += 1
        self.descriptors[number] = (path, flags)
        return number

    def fs_open(self, path, flags, mode=0o777, **kwargs):
        self.alive()
        exists = self.exists(path)
        if self.is_dir(path) and flags & (os.O_WRONLY | os.O_RDWR):
            raise error(errno.EISDIR, path)
        if not exists and not flags & os.O_CREAT:
            raise error(errno.ENOENT, path)
        if exists and flags & os.O_CREAT and flags & os.O_EXCL:
            raise error(errno.EEXIST, path)
        if not exists or flags & os.O_TRUNC:
            self.happen(self.step("open", path), path)
            self.save(path, b"")
        return self.descriptor(path, flags)

    def fs_fdopen(self, number, mode="r", buffering=-1, encoding=None,
                  *args, **kwargs):
        path, _ = self.descriptors[number]
        return File(self, path, mode.replace("w", "r+").replace("x", "r+")
                    if "+" not in mode else mode.replace("w", "r"),
                    encoding, number)

    def fs_close(self, number):
        self.alive()
        self.descriptors.pop(number, None)

    def fs_fsync(self, number):
        self.alive()

    fs_fdatasync = fs_fsync

    def fs_fstat(self, number):
        path, _ = self.descriptors[number]
        return self.fs_stat(path)

    def fs_write(self, number, data):
        path, flags = self.descriptors[number]
        base = self.load(path)
        if not isinstance_(data, SymBytes):
            data = bytes(data)
        self.persist(path, base, base + data)
        return len(data)

    def fs_read(self, number, size):
        path, _ = self.descriptors[number]
        return self.load(path)[:size]


codecs_open = codecs.open
