"""P18: exported Prolog facts are well-formed and carry the recorded values"""
from datetime import datetime, timedelta

from symex.api import harness
from symex.hlib import Record

from noworkflow.now.persistence import models as M
from noworkflow.now.models.trial_prolog import TrialProlog

EPOCH = datetime(1970, 1, 1)
ALPHA = "ab'\"\\\n,"
UPPER_ID = "T1'x"

# fact -> (model, name, [(attribute, kind)]), from the documented schema
SPEC = {
    "trial": ("Trial", [("id", "atom"), ("script", "text"), ("start", "time"),
                        ("finish", "time"), ("command", "text"),
                        ("status", "text"),
                        ("modules_inherited_from_trial_id", "natom"),
                        ("parent_id", "natom"), ("main_id", "nint")]),
    "tag": ("Tag", [("trial_id", "atom"), ("name", "text"), ("type", "text"),
                    ("timestamp", "time")]),
    "argument": ("Argument", [("trial_id", "atom"), ("name", "text"),
                              ("value", "text")]),
    "environment": ("EnvironmentAttr", [("trial_id", "atom"), ("name", "text"),
                                        ("value", "text")]),
    "module": ("Module", [("trial_id", "atom"), ("id", "int"),
                          ("name", "text"), ("version", "ntext"),
                          ("path", "text"), ("code_block_id", "nint"),
                          ("transformed", "bool"), ("fullpath", "text")]),
    "code_component": ("CodeComponent", [
        ("trial_id", "atom"), ("id", "int"), ("name", "text"),
        ("type", "text"), ("mode", "text"), ("first_char_line", "int"),
        ("first_char_column", "int"), ("last_char_line", "int"),
        ("last_char_column", "int"), ("container_id", "nint")]),
    "code_block": ("CodeBlock", [("trial_id", "atom"), ("id", "int"),
                                 ("code_hash", "ntext"),
                                 ("docstring", "ntext")]),
    "activation": ("Activation", [("trial_id", "atom"), ("id", "int"),
                                  ("name", "text"),
                                  ("start_checkpoint", "int"),
                                  ("code_block_id", "nint")]),
    "evaluation": ("Evaluation", [
        ("trial_id", "atom"), ("id", "int"), ("checkpoint", "int"),
        ("code_component_id", "int"), ("activation_id", "nint"),
        ("repr", "text"), ("member_container_id", "nint")]),
    "dependency": ("Dependency", [
        ("trial_id", "atom"), ("dependent_activation_id", "int"),
        ("dependent_id", "int"), ("dependency_activation_id", "int"),
        ("dependency_id", "int"), ("type", "text"), ("reference", "bool"),
        ("collection_activation_id", "nint"), ("collection_id", "nint"),
        ("key", "ntext")]),
    "access": ("FileAccess", [
        ("trial_id", "atom"), ("id", "fid"), ("name", "text"),
        ("mode", "text"), ("content_hash_before", "ntext"),
        ("content_hash_after", "ntext"), ("checkpoint", "int"),
        ("activation_id", "nint")]),
    "member": ("Member", [
        ("trial_id", "atom"), ("collection_activation_id", "int"),
        ("collection_id", "int"), ("member_activation_id", "int"),
        ("member_id", "int"), ("key", "text"), ("checkpoint", "int"),
        ("type", "text")]),
}
LISTS = ["tags", "arguments", "modules", "environment_attrs",
         "code_components", "code_blocks", "activations", "evaluations",
         "dependencies", "file_accesses", "members"]


class Malformed(Exception):
    pass


def read_term(text, pos):
    """Minimal reader of Prolog arguments: returns (kind, value), new pos"""
    if pos >= len(text):
        raise Malformed("end of text")
    char = text[pos]
    if char == "'":
        out = ""
        pos += 1
        while True:
            if pos >= len(text):
                raise Malformed("unterminated quoted atom")
            char = text[pos]
            if char == "'":
                if pos + 1 < len(text) and text[pos + 1] == "'":
                    out = out + "'"
                    pos += 2
                    continue
                return ("atom", out), pos + 1
            if char == "\\":
                if pos + 1 >= len(text):
                    raise Malformed("bad escape")
                nxt = text[pos + 1]
                if nxt == "n":
                    out = out + "\n"
                elif nxt == "t":
                    out = out + "\t"
                elif nxt == "r":
                    out = out + "\r"
                elif nxt == "\\" or nxt == "'" or nxt == '"':
                    out = out + nxt
                else:
                    raise Malformed("unknown escape")
                pos += 2
                continue
            if char == "\n":
                raise Malformed("newline in quoted atom")
            out = out + char
            pos += 1
    start = pos
    while pos < len(text) and not (text[pos] == "," or text[pos] == ")"):
        pos += 1
    return ("plain", text[start:pos]), pos


def read_fact(text):
    """Read name(arg, ...). completely"""
    pos = 0
    while pos < len(text) and text[pos] != "(":
        pos += 1
    name = text[:pos]
    pos += 1
    args = []
    while True:
        while pos < len(text) and text[pos] == " ":
            pos += 1
        arg, pos = read_term(text, pos)
        args.append(arg)
        if pos >= len(text):
            raise Malformed("unterminated fact")
        if text[pos] == ",":
            pos += 1
            continue
        if text[pos] == ")":
            break
        raise Malformed("junk after argument")
    if text[pos + 1:] != ".":
        raise Malformed("junk after fact")
    return name, args


def text_ok(sx, value, decoded):
    """Recorded text, or the contents of the string literal it denotes"""
    options = [sx.eq(decoded, value)]
    if len(value) >= 2:
        for quote in "'\"":
            options.append(sx.and_(
                value[0] == quote, value[-1] == quote,
                sx.eq(decoded, value[1:-1])))
    if len(value) >= 3:
        for quote in "'\"":
            for letter in "ab":
                options.append(sx.and_(
                    value[0] == letter, value[1] == quote,
                    value[-1] == quote, sx.eq(decoded, value[2:-1])))
    return sx.or_(*options)


def arg_ok(sx, kind, value, arg):
    akind, text = arg
    if kind.startswith("n") and value is None:
        return akind == "plain" and text == "nil"
    if kind in ("text", "ntext"):
        return akind == "atom" and text_ok(sx, value, text)
    if kind in ("atom", "natom"):
        return akind == "atom" and sx.eq(text, value)
    if kind in ("int", "nint"):
        return akind == "plain" and text != "" and sx.eq(to_int(text), value)
    if kind == "fid":
        return (akind == "plain" and text[:1] == "f"
                and sx.eq(to_int(text[1:]), value))
    if kind == "bool":
        return akind == "plain" and text == ("1" if value else "0")
    if kind == "time":
        return akind == "plain" and float(text) == (
            -1 if value is None else (value - EPOCH).total_seconds())
    raise ValueError(kind)


def to_int(text):
    total = 0
    sign = 1
    if text[:1] == "-":
        sign = -1
        text = text[1:]
    if not len(text):
        raise Malformed("no digits")
    for char in text:
        if not (char >= "0" and char <= "9"):
            raise Malformed("not a number")
        total = total * 10 + (ord_(char) - 48)
    return sign * total


def ord_(char):
    from symex.models import do_ord
    return do_ord(char)


def concrete(kind, index):
    return {
        "atom": "t-%d" % index, "natom": "p", "text": "x%d" % index,
        "ntext": "y%d" % index, "int": index + 3, "nint": index + 5,
        "fid": index + 7, "bool": False,
        "time": datetime(2020, 1, 2, 3, 4, 5, 500000),
    }[kind]


def make_record(sx, fact, field, maxlen, prefix=""):
    """Record in which one field is symbolic"""
    model, spec = SPEC[fact]
    values = {}
    for index, (name, kind) in enumerate(spec):
        value = concrete(kind, index)
        if name == field:
            key = prefix + name
            if kind.startswith("n") and sx.bool(key + ".none"):
                value = None
            elif kind in ("text", "ntext", "atom", "natom"):
                if kind.endswith("atom"):
                    value = sx.str(key, "a'B-", 1, 2)
                else:
                    value = sx.str(key, ALPHA, 0, maxlen)
            elif kind in ("int", "nint", "fid"):
                value = sx.int(key, 0, 120)
            elif kind == "bool":
                value = bool(sx.bool(key))
            elif kind == "time":
                if sx.bool(key + ".none"):
                    value = None
                else:
                    value = EPOCH + timedelta(
                        seconds=sx.choose(key, [1, 2.5, 90000, 10 ** 9]))
        values[name] = value
    return Record(**values), values


@harness("P18", params=[(f, {"fact": f}) for f in SPEC], budget=(80, 400),
         reach=["fact"])
def facts(sx, fact):
    """every field of the fact in turn symbolic: texts of <=3 characters over
    {a b ' " \\ newline ,} (4 in thorough), ids and checkpoints 0..120, null"""
    sx.repr_mode = "digits"
    model, spec = SPEC[fact]
    field = sx.choose("field", [name for name, _ in spec])
    record, values = make_record(sx, fact, field, 3)
    text = getattr(M, model).prolog_description.fact(record)
    sx.observe("text", text)
    try:
        name, args = read_fact(text)
    except Malformed as exc:
        sx.check(False, "malformed:" + field, text=text, why=str(exc))
        return
    sx.reach("fact")
    sx.check(sx.eq(name, fact), "name")
    sx.check(len(args) == len(spec), "arity:" + field, text=text)
    for (attr, kind), arg in zip(spec, args):
        try:
            good = arg_ok(sx, kind, values[attr], arg)
        except Malformed:
            good = False
        sx.check(good, "value:" + attr, text=text, value=values[attr])


@harness("P18", budget=(40, 100), reach=["decl"])
def declarations(sx):
    """the declared schema (dynamic/arity, empty fact, retract) of each fact"""
    fact = sx.choose("fact", sorted(SPEC))
    model, spec = SPEC[fact]
    desc = getattr(M, model).prolog_description
    sx.check(desc.dynamic() == ":- dynamic(%s/%d)." % (fact, len(spec)),
             "dynamic", got=desc.dynamic())
    name, args = read_fact(desc.empty())
    sx.check(name == fact and len(args) == len(spec), "empty fact")
    tid = sx.str("tid", "a'B", 1, 2)
    text = desc.retract(tid)
    sx.check(text[:8] == "retract(" and text[-1] == ")", "retract")
    name, args = read_fact(text[8:-1] + ".")
    sx.check(sx.eq(name, fact) and len(args) == len(spec), "retract arity")
    sx.check(args[0][0] == "atom" and sx.eq(args[0][1], tid), "retract trial")
    sx.check(all(sx.eq(a[1], "_") for a in args[1:]), "retract any")
    sx.reach("decl")


class FakeTrial(Record):
    pass


@harness("P18", budget=(80, 300), reach=["export"])
def export(sx):
    """text export of a trial with 0..2 records of one kind and 1 of the
    others; texts of <=2 characters: one clause per record, in order"""
    sx.repr_mode = "digits"
    facts_of = dict(zip(LISTS, ["tag", "argument", "module", "environment",
                                "code_component", "code_block", "activation",
                                "evaluation", "dependency", "access",
                                "member"]))
    which = sx.choose("which", LISTS)
    amount = sx.choose("amount", [0, 1, 2])
    trial, tvalues = make_record(sx, "trial", None, 2, "t.")
    expected = [("trial", tvalues)]
    for attr in LISTS:
        records = []
        for index in range(amount if attr == which else 1):
            texts = [n for n, k in SPEC[facts_of[attr]][1]
                     if k in ("text", "ntext")]
            record, values = make_record(
                sx, facts_of[attr],
                texts[-1] if attr == which and not index else None, 2,
                "%s.%d." % (attr, index))
            records.append(record)
            expected.append((facts_of[attr], values))
        setattr(trial, attr, records)
    text = TrialProlog(trial).export_text_facts()
    clauses = []
    for line in text.split("\n"):
        if not len(line) or line[0] == "%":
            continue
        if line[:2] == ":-":
            continue
        clauses.append(line)
    sx.check(len(clauses) == len(expected), "number of clauses", text=text)
    wanted = {}
    for fact, values in expected:
        wanted.setdefault(fact, []).append(values)
    got = {}
    for clause in clauses:
        try:
            name, args = read_fact(clause)
        except Malformed as exc:
            sx.check(False, "malformed line", line=clause)
            return
        got.setdefault(str(name), []).append(args)
    for fact, records in wanted.items():
        rows = got.get(fact, [])
        sx.check(len(rows) == len(records), "records of " + fact)
        for values, args in zip(records, rows):
            spec = SPEC[fact][1]
            for (attr, kind), arg in zip(spec, args):
                sx.check(arg_ok(sx, kind, values[attr], arg),
                         "value:%s.%s" % (fact, attr), text=text)
    sx.reach("export")
