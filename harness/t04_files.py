"""T04: file accesses record the right mode, moment, content and activation"""
import builtins
import os

from symex.api import harness
from symex import gitmodel, hlib, trial
from symex.models import to_str
from symex.vfs import FileSystem

# how to open: expression, recorded mode, recorded buffering
MODES = ("r", "w", "a", "r+", "w+", "x", "rb", "wb")
WAYS = {
    "name": ("open({n})", "r", "default"),
    "mode": ("open({n}, {m})", "{m}", "default"),
    "buffering": ("open({n}, {m}, {b})", "{m}", "{b}"),
    "mode_key": ("open({n}, mode={m})", "{m}", "default"),
    "buffering_key": ("open({n}, {m}, buffering={b})", "{m}", "{b}"),
    "keys": ("open(buffering={b}, mode={m}, file={n})", "{m}", "{b}"),
    "encoding": ("open({n}, {m}, {b}, 'utf-8')", "{m}", "{b}"),
    "encoding_key": ("open({n}, encoding='utf-8')", "r", "default"),
    "star": ("open(*({n}, {m}), **{{'buffering': {b}}})", "{m}", "{b}"),
    "io": ("io.open({n}, {m}, {b})", "{m}", "{b}"),
    "io_keys": ("io.open(file={n}, mode={m})", "{m}", "default"),
    "codecs": ("codecs.open({n}, {m})", "{m}", "default"),
    "codecs_encoding": ("codecs.open({n}, {m}, 'utf-8')", "{m}", "default"),
    "codecs_all": ("codecs.open({n}, {m}, 'utf-8', 'strict', {b})", "{m}",
                   "{b}"),
    "codecs_keys": ("codecs.open(filename={n}, mode={m}, buffering={b})",
                    "{m}", "{b}"),
    "path": ("open(pathlib.Path({n}), {m})", "{m}", "default"),
    "pathlib": ("pathlib.Path({n}).open({m})", "{m}", None),
    "bytes": ("open({n}.encode('utf-8'), {m})", "{m}", "default"),
}
FLAGS = ("os.O_RDONLY", "os.O_WRONLY", "os.O_RDWR",
         "os.O_WRONLY | os.O_APPEND", "os.O_RDWR | os.O_CREAT",
         "os.O_WRONLY | os.O_CREAT | os.O_TRUNC",
         "os.O_WRONLY | os.O_CREAT | os.O_EXCL")
OS_WAYS = {
    "os": "os.open({n}, {m})", "os_mode": "os.open({n}, {m}, 0o600)",
    "os_keys": "os.open(path={n}, flags={m}, mode=0o600)",
}


def flag_mode(flags):
    """Texts of the mode that must and must not be there"""
    names = [name.strip() for name in flags.split("|")]
    texts = {"os.O_RDONLY": "r", "os.O_WRONLY": "w", "os.O_RDWR": "+",
             "os.O_APPEND": "a", "os.O_CREAT": "(O_CREAT)",
             "os.O_TRUNC": "(O_TRUNC)", "os.O_EXCL": ""}
    return (sorted(texts[name] for name in names if texts[name]),
            sorted(text for name, text in texts.items()
                   if name not in names and text))


HEAD = "import codecs\nimport io\nimport os\nimport pathlib\n"


def indent(text, size):
    return "".join(" " * size + line + "\n" for line in text.splitlines())


# place of the access: script, name of its activation
PLACES = {
    "module": ("{body}end()\n", "__main__"),
    "function": ("def work():\n{body4}    end()\nwork()\nlater()\n", "work"),
    "nested": ("def work():\n{body4}    end()\ndef main():\n    work()\n"
               "    later()\nmain()\nlater()\n", "work"),
    "inner": ("def main():\n    def work():\n{body8}        end()\n"
              "    work()\n    later()\nmain()\n", "work"),
    "method": ("class A(object):\n    def work(self):\n{body8}"
               "        end()\nA().work()\nlater()\n", "work"),
    "recursive": ("def work(i):\n    if i:\n        work(i - 1)\n"
                  "        return\n{body4}    end()\nwork(2)\nlater()\n",
                  "work"),
    "callback": ("def work(x):\n{body4}    end()\nlist(map(work, [0]))\n"
                 "later()\n", "work"),
    "generator": ("def work():\n    yield 1\n{body4}    end()\n    yield 2\n"
                  "def main():\n    for i in work():\n        pass\n"
                  "    end()\nmain()\nlater()\n", "work"),
    "class": ("class A(object):\n{body4}    end()\nlater()\n", "A"),
}

# what happens to the file afterwards
ENDS = {
    "nothing": "",
    "rewrite": "change('{n}')\n",
    "remove": "remove('{n}')\n",
    "chdir": "os.chdir('sub')\n",
    "exception": "try:\n    open('absent')\nexcept OSError as exc:\n"
                 "    out(type(exc).__name__, exc.errno)\n",
}


def using(fil, kind):
    """Statements that use the file fil"""
    if kind == "os":
        return ("try:\n    out(os.write({f}, DATA))\n"
                "except OSError as exc:\n    out(exc.errno)\n"
                "os.close({f})\n").format(f=fil)
    return ("try:\n    if 'b' in {f}.mode:\n        {f}.write(DATA)\n"
            "    else:\n        {f}.write(TEXT)\n"
            "except (OSError, ValueError):\n    out({f}.read())\n"
            "{f}.close()\n").format(f=fil)


def opening(number, expression, kind):
    """Statements that open and use a file"""
    return ("opening(%d)\ntry:\n    f%d = %s\n"
            "except Exception as exc:\n"
            "    out(type(exc).__name__, getattr(exc, 'errno', None))\n"
            "else:\n    opened(%d)\n%s") % (
                number, number, expression, number,
                indent(using("f%d" % number, kind), 4))


class Expected(object):
    """Access that must be recorded"""

    def __init__(self, name, mode, buffering, others=()):
        self.name = name
        self.mode = mode
        self.buffering = buffering
        self.others = others       # texts that flags must not have
        self.before = self.after = None
        self.moments = [None, None]
        self.opened = self.ended = False
        self.given = name


class Session(object):
    """Run of the script over a file system"""

    def __init__(self, sx, files, accesses):
        self.sx = sx
        self.accesses = accesses
        self.fs = FileSystem(sx)
        self.later = []
        for name, content in files.items():
            if content is not None:
                self.fs.create(name, content)
        self.fs.make(self.fs.path("sub"))
        os.chdir(self.fs.root)
        for access in accesses:
            access.given = access.given.format(root=self.fs.root)

    def close(self):
        self.fs.uninstall()

    def content(self, name):
        path = self.fs.path(name)
        return (self.fs.load(path) if self.fs.exists(path)
                and not self.fs.is_dir(path) else None)

    def now(self):
        collector = getattr(builtins, "__noworkflow__", None)
        return collector.get_time() if collector is not None else 0

    def names(self, text, data):
        def begin(number):
            access = self.accesses[number]
            access.before = self.content(access.name)
            access.moments[0] = self.now()

        def opened(number):
            self.accesses[number].moments[1] = self.now()
            self.accesses[number].opened = True

        def end():
            for access in self.accesses:
                access.after = self.content(access.name)
                access.ended = True

        def change(name):
            self.fs.save(self.fs.path(name), b"changed")

        def remove(name):
            if self.content(name) is not None:
                os.remove(self.fs.path(name))

        def later():
            # changes after the end of the function do not matter
            for access in self.accesses:
                self.fs.save(self.fs.path(access.name), b"later")
        return {"opening": begin, "opened": opened, "end": end,
                "change": change, "remove": remove, "later": later,
                "TEXT": text, "DATA": data}


def run(sx, code, files, accesses, text, data, config):
    """Run the script with and without the collection, and compare"""
    hashing = gitmodel.Hashing(sx)
    plain = Session(sx, files, [Expected(a.name, a.mode, a.buffering)
                                for a in accesses])
    alone = trial.plain(sx, code.replace("{root}", plain.fs.root), **plain.names(text, data))
    left = plain.fs.files_below()
    plain.close()
    session = Session(sx, files, accesses)
    hashing.install()
    trial.prepare()
    from noworkflow.now.persistence import content
    from noworkflow.now.persistence.config import PersistenceConfig
    from noworkflow.now.persistence.content.plain_engine import PlainEngine
    settings = PersistenceConfig()
    settings.provenance_path = session.fs.path(".noworkflow")
    engine = PlainEngine(settings)
    engine.connect(settings)
    hlib.attr_patch(sx, content, "content_database_engine", engine)
    captured = trial.capture(sx, code.replace(
        "{root}", session.fs.root), _config=config, _shared=True,
                             **session.names(text, data))
    right = {name: value for name, value in session.fs.files_below().items()
             if not name.startswith(".noworkflow")}
    sx.check(trial.same(sx, alone.outcome(), captured.outcome()),
             "results of the script", plain=alone.outcome(),
             captured=captured.outcome())
    sx.check(sorted(left) == sorted(right), "files of the script",
             plain=sorted(left), captured=sorted(right))
    for name in left:
        sx.check(sx.eq(left[name], right.get(name)), "content of the files",
                 name=name, plain=left[name], captured=right.get(name))
    return captured.metascript, engine


def verify(sx, meta, engine, accesses, place, depth=None):
    """Records of the accesses"""
    records = list(meta.file_accesses_store.store.values())
    wanted = [access for access in accesses if access.opened]
    found = []
    for record in records:
        begun = [access for access in accesses if access.moments[0] is not None
                 and access.moments[0] <= record.checkpoint]
        sx.check(bool(begun), "accesses are recorded when they happen",
                 name=record.name)
        if begun and begun[-1].opened and record.name != "absent":
            found.append(record)     # others failed
    sx.check(len(found) == len(wanted), "every opening is recorded",
             names=[r.name for r in records],
             expected=[w.name for w in wanted])
    activations = {a.id: a for a in meta.activations_store.store.values()}
    for record, access in zip(found, wanted):
        info = {"name": access.name, "record": [
            record.mode, record.buffering, record.checkpoint]}
        if access.others:
            must, others = access.mode, access.others
            rest = record.mode
            for text in sorted(must + others, key=len, reverse=True):
                if text in rest:
                    sx.check(text in must, "flags of the opening", flag=text,
                             mode=record.mode)
                    rest = rest.replace(text, "")
                else:
                    sx.check(text not in must, "flags of the opening",
                             flag=text, mode=record.mode)
        else:
            sx.check(sx.eq(record.mode, access.mode), "mode of the opening",
                     expected=access.mode, **info)
        if access.buffering is not None:
            value = record.buffering
            sx.check(sx.eq(value, access.buffering), "buffering",
                     expected=access.buffering, **info)
        sx.check(record.name == access.given, "name of the file", **info)
        sx.check(access.moments[0] <= record.checkpoint
                 <= access.moments[1], "moment of the opening", **info)
        for label, value, expected in [
                ("before", record.content_hash_before, access.before),
                ("after", record.content_hash_after, access.after)]:
            if expected is None:
                sx.check(value is None, "no content " + label, hash=value,
                         **info)
                continue
            sx.check(value is not None, "there is a content " + label,
                     expected=expected, **info)
            if value is not None:
                content = engine.get(value)
                sx.check(sx.eq(content, expected), "content " + label,
                         expected=expected, found=content, **info)
        sx.check(record.done is True, "the access is complete", **info)
        activation = activations.get(record.activation_id)
        sx.check(activation is not None, "activation of the access",
                 activation=record.activation_id, **info)
        if activation is None:
            continue
        stack = [activation.name]
        while activation.code_block_id in (-1, None) and activation.parent:
            activation = activation.parent
            stack.append(activation.name)
        if depth is None:
            sx.check(stack[-1] == place, "activation that opened",
                     stack=stack, expected=place, **info)
            sx.check(len(stack) <= 2, "activation of the call", stack=stack,
                     **info)
    sx.reach("recorded")


def build(sx, way, place, end, name, mode, buffering, number=0):
    """Statements of an access, and what must be recorded"""
    if way in OS_WAYS:
        expression = OS_WAYS[way].format(n=repr(name), m=mode)
        must, others = flag_mode(mode)
        expected = Expected(name, must, "default", others)
        kind = "os"
    else:
        text, wmode, wbuffering = WAYS[way]
        expression = text.format(n=repr(name), m=repr(mode),
                                 b=repr(buffering))
        expected = Expected(
            name, wmode.format(m=mode),
            buffering if wbuffering == "{b}" else wbuffering)
        kind = "file"
    return opening(number, expression, kind), expected


def script_of(place, body):
    template, name = PLACES[place]
    return HEAD + template.format(body=body, body4=indent(body, 4),
                                  body8=indent(body, 8)), name


@harness("T04", params=[(way, {"way": way})
                        for way in sorted(WAYS) + sorted(OS_WAYS)],
         budget=(40, 200), reach=["recorded"])
def opened(sx, way):
    """One access in a function or in the module: every way to pass the
    arguments, mode, previous content (or none) and written content"""
    full = way in ("mode", "os")
    place = sx.choose("place", ["function", "module"]) if full else "function"
    options = FLAGS if way in OS_WAYS else (
        MODES[:1] if way in ("name", "encoding_key") else
        MODES if full else ("r", "w", "r+", "xb"))
    mode = sx.choose("mode", options)
    buffering = sx.choose("buffering", [1, -1, 8]) \
        if way not in OS_WAYS and "{b}" in WAYS[way][0] else 1
    before = sx.bytes("before", "a\n", 0, 2 if full else 1) if sx.choose(
        "exists", [True, False]) else None
    data = sx.bytes("data", "b\n", 1, 1)
    text = data.decode("latin-1")
    end = sx.choose("end", ["nothing", "rewrite"]) if full else "nothing"
    body, expected = build(sx, way, place, end, "f.txt", mode, buffering)
    code, name = script_of(place, body + ENDS[end].format(n="f.txt"))
    meta, engine = run(sx, code, {"f.txt": before}, [expected], text, data,
                       {})
    verify(sx, meta, engine, [expected], name)


@harness("T04", params=[(place, {"place": place}) for place in PLACES],
         budget=(40, 200), reach=["recorded"])
def placed(sx, place):
    """Two accesses to the same or another file, in several places, with
    changes, removals, or another working directory afterwards"""
    end = sx.choose("end", sorted(ENDS))
    before = sx.bytes("before", "a\n", 1, 1) if sx.choose(
        "exists", [True, False]) else None
    data = sx.bytes("data", "b\n", 1, 1)
    text = data.decode("latin-1")
    bodies, accesses = [], []
    for number in range(2):
        name = "f.txt" if number == 0 else sx.choose("name", [
            "f.txt", "g.txt"])
        body, expected = build(
            sx, "mode", place, end, name,
            sx.choose("mode%d" % number, ["r", "a"] if number else ["r", "w"]),
            1, number)
        bodies.append(body)
        accesses.append(expected)
    code, name = script_of(
        place, "".join(bodies) + ENDS[end].format(n="f.txt"))
    meta, engine = run(sx, code, {"f.txt": before}, accesses, text, data, {})
    verify(sx, meta, engine, accesses, name)


@harness("T04", params=[(place, {"place": place}) for place in (
    "function", "nested", "recursive", "method")],
         budget=(40, 200), reach=["recorded"])
def limited(sx, place):
    """Accesses below the depth of the collection belong to an activation
    that is collected"""
    depth = sx.choose("depth", [1, 2, 3])
    mode = sx.choose("mode", ["r", "w"])
    before = sx.bytes("before", "a\n", 0, 1)
    data = sx.bytes("data", "b\n", 1, 1)
    body, expected = build(sx, "mode", place, "nothing", "f.txt", mode, 1)
    code, name = script_of(place, body)
    # the moment in which the collected activation ends is another one
    code = code.replace("later()", "end()")
    meta, engine = run(sx, code, {"f.txt": before}, [expected],
                       data.decode("latin-1"), data, {"depth": depth})
    verify(sx, meta, engine, [expected], name, depth)


NAMES = {
    "directory": ("sub", "sub"), "below": ("sub/f.txt", "sub/f.txt"),
    "dot": ("./f.txt", "f.txt"), "back": ("sub/../f.txt", "f.txt"),
    "absent": ("absent/f.txt", "absent/f.txt"), "empty": ("", ""),
    "absolute": ("{root}/f.txt", "f.txt"),
}


@harness("T04", params=[("open", {"way": "mode"}), ("os", {"way": "os"})],
         budget=(60, 200), reach=["recorded"])
def names(sx, way):
    """Names of directories, of files that cannot exist, and other forms of
    the name of a file"""
    given, real = NAMES[sx.choose("name", sorted(NAMES))]
    place = sx.choose("place", ["function", "module"])
    mode = sx.choose("mode", FLAGS[:2] + FLAGS[4:5] if way == "os"
                     else ("r", "w"))
    before = sx.bytes("before", "a\n", 1, 1) if sx.choose(
        "exists", [True, False]) else None
    data = sx.bytes("data", "b\n", 1, 1)
    body, expected = build(sx, way, place, "nothing", given, mode, 1)
    expected.name = real
    expected.given = given
    code, name = script_of(place, body)
    meta, engine = run(sx, code, {"f.txt": before, "sub/f.txt": before},
                       [expected], data.decode("latin-1"), data, {})
    verify(sx, meta, engine, [expected], name)
