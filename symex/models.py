"""Models of builtins that cannot receive symbolic values natively"""
from __future__ import annotations

import ast
import builtins
import inspect
import operator
import os
import re
import sys
import types
import z3

from .core import (Sym, SymBool, SymNum, SymStr, ReprTok, cur, chars_of,
                   mk_str, deep_sym, deep_eq, isinstance_, PathAbort,
                   mk_num, mk_bool, num_term, ite, _is_text)

_real_isinstance = isinstance


# ---------------------------------------------------------------- text

def to_str(value):
    """str(value)"""
    typ = type(value)
    if issubclass(typ, SymStr):
        return value
    if issubclass(typ, SymNum) or issubclass(typ, SymBool):
        if cur().repr_mode == "token":
            return cur().repr_of(value)
        return value.__sxrepr__()
    if issubclass(typ, ReprTok):
        return value
    if issubclass(typ, str):
        return str(value)
    if typ in (list, tuple, dict, set, frozenset):
        return to_repr(value) if deep_sym(value) else str(value)
    method = typ.__str__
    if type(method) is types.FunctionType:
        return method(value)
    if method is object.__str__:
        rmethod = typ.__repr__
        if type(rmethod) is types.FunctionType:
            return rmethod(value)
    if issubclass(typ, BaseException) and method is BaseException.__str__:
        args = value.args
        if len(args) == 1 and deep_sym(args[0]):
            return to_str(args[0])
    return str(value)


def to_repr(value):
    typ = type(value)
    if issubclass(typ, SymNum) or issubclass(typ, SymBool):
        if cur().repr_mode == "token":
            return cur().repr_of(value)
        return value.__sxrepr__()
    if issubclass(typ, SymStr):
        return str_repr(value)
    if typ in (list, tuple, set, frozenset, dict) and deep_sym(value):
        if typ is dict:
            parts = []
            for key, val in value.items():
                parts.append(concat([to_repr(key), ": ", to_repr(val)]))
            return concat(["{", str_join(", ", parts), "}"])
        parts = [to_repr(item) for item in value]
        inner = str_join(", ", parts)
        if typ is list:
            return concat(["[", inner, "]"])
        if typ is tuple:
            return concat(["(", inner, ",)" if len(parts) == 1 else ")"])
        if typ is set:
            return concat(["{", inner, "}"])
        return concat(["frozenset({", inner, "})"])
    method = typ.__repr__
    if type(method) is types.FunctionType:
        return method(value)
    return repr(value)


def str_repr(value):
    """repr of symbolic string: forks on quotes and escapes"""
    has_single = "'" in value
    has_double = '"' in value
    quote = '"' if has_single and not has_double else "'"
    result = [quote]
    for char in value.chars:
        char_s = mk_str((char,))
        if isinstance_(char, str):
            result.extend(repr("'\"" + char)[4:-1]
                          if char != "'" else
                          ("\\'" if quote == "'" else "'"))
            continue
        if char_s == quote:
            result.extend("\\" + quote)
        elif char_s == "\\":
            result.extend("\\\\")
        elif char_s == "\n":
            result.extend("\\n")
        elif char_s == "\r":
            result.extend("\\r")
        elif char_s == "\t":
            result.extend("\\t")
        elif bool(mk_bool(z3.And(char >= 32, char < 127))):
            result.append(char)
        else:
            conc = cur().concretize(char_s)
            result.extend(repr(conc)[1:-1])
    result.append(quote)
    return mk_str(result)


def concat(parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    chars = []
    for part in parts:
        if isinstance_(part, ReprTok) and len(parts) == 1:
            return part
        chars.extend(chars_of(part))
    return mk_str(chars)


def str_join(sep, items):
    items = list(items)
    parts = []
    for index, item in enumerate(items):
        if not _is_text(item):
            raise TypeError("sequence item %d: expected str instance, %s found"
                            % (index, type(item).__name__))
        if index:
            parts.append(sep)
        parts.append(item)
    if not parts:
        return ""
    return concat(parts)


def do_format(value, spec):
    if deep_sym(value, 0) or deep_sym(spec, 0):
        if not isinstance_(spec, str) or spec:
            return str_format_spec(value, spec)
        return to_str(value)
    method = type(value).__format__
    if method is object.__format__ and not spec:
        return to_str(value)
    return format(value, spec)


def str_format_spec(value, spec):
    if isinstance_(value, SymStr) and isinstance_(spec, str):
        import re
        match = re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?s?", spec)
        if match:
            fill, align, width = match.groups()
            pad = max(0, int(width or 0) - len(value))
            fill, align = fill or " ", align or "<"
            left = {"<": 0, ">": pad, "^": pad // 2}[align]
            return concat([fill * left, value, fill * (pad - left)])
    return format(cur().concretize(value), cur().concretize(spec))


def fstring(*parts):
    """parts: str, or tuple (value, conversion, spec)"""
    result = []
    for part in parts:
        if type(part) is tuple:
            value, conv, spec = part
            if conv == 114:
                value = to_repr(value)
            elif conv == 115:
                value = to_str(value)
            elif conv == 97:
                value = ascii(value)
            result.append(do_format(value, spec))
        else:
            result.append(part)
    return concat(result)


def str_format(template, args, kwargs):
    import string
    if isinstance_(template, SymStr):
        template = cur().concretize(template)
    if not (any(deep_sym(a) or _odd(a) for a in args)
            or any(deep_sym(a) or _odd(a) for a in kwargs.values())):
        return template.format(*args, **kwargs)
    formatter = string.Formatter()
    auto = [0]
    result = []

    def field(name):
        if name == "" or name[0] in ".[":
            name = str(auto[0]) + name
            auto[0] += 1
        first, rest = string._string.formatter_field_name_split(name)
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, key in rest:
            obj = getattr(obj, key) if is_attr else obj[key]
        return obj

    for literal, name, spec, conv in formatter.parse(template):
        result.append(literal)
        if name is not None:
            value = field(name)
            if conv == "r":
                value = to_repr(value)
            elif conv == "s":
                value = to_str(value)
            if spec and "{" in spec:
                spec = str_format(spec, args, kwargs)
            result.append(do_format(value, spec))
    return concat(result)


def _odd(value):
    """Objects of the code under test may have a __str__ with symbolic res"""
    typ = type(value)
    return not (typ in (int, float, str, bool, type(None)) )


def percent_format(template, args):
    import re
    if isinstance_(template, SymStr):
        template = cur().concretize(template)
    mapping = args if isinstance_(args, dict) else None
    if not isinstance_(args, tuple):
        args = (args,)
    if not any(deep_sym(a) or _odd(a) for a in args) and not (
            mapping and deep_sym(mapping)):
        return template % (mapping if mapping is not None else args)
    pos = 0
    argi = 0
    result = []
    pattern = re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\d+)?(?:\.(\d+))?([a-zA-Z%])")
    for match in pattern.finditer(template):
        result.append(template[pos:match.start()])
        pos = match.end()
        key, flags, width, prec, conv = match.groups()
        if conv == "%":
            result.append("%")
            continue
        if key is not None:
            value = mapping[key]
        else:
            value = args[argi]
            argi += 1
        if conv in "sr" and not width and not prec:
            result.append(to_str(value) if conv == "s" else to_repr(value))
        elif conv in "di" and not width and not prec and not flags:
            result.append(to_str(value))
        else:
            spec = "%" + flags + (width or "") + (
                "." + prec if prec else "") + conv
            result.append(spec % (cur().concretize(value),))
    result.append(template[pos:])
    return concat(result)


def _token_int(text):
    """int(text), undoing tokens that stand for symbolic numbers"""
    if text.startswith("\u00ab") and cur_or_none() is not None:
        for tok in cur().tokens.values():
            if tok == text and isinstance_(tok.value, SymNum) and \
                    tok.value.term.is_int():
                return tok.value
    return int(text)


def to_int(value=0, *args):
    if args:
        return int(cur().concretize(value), *args)
    if isinstance_(value, SymNum):
        if value.term.is_int():
            return value
        # truncation towards zero
        term = value.term
        return mk_num(z3.If(term >= 0, z3.ToInt(term), -z3.ToInt(-term)))
    if isinstance_(value, SymBool):
        return value._num()
    if isinstance_(value, str) and not isinstance_(value, SymStr):
        return _token_int(value)
    if isinstance_(value, SymStr):
        if all(isinstance_(c, str) for c in value.chars):
            return _token_int("".join(value.chars))
        text = value.strip()
        sign = 1
        if isinstance_(text, str):
            return int(text)
        if text.startswith("-"):
            sign, text = -1, text[1:]
        elif text.startswith("+"):
            text = text[1:]
        if isinstance_(text, str):
            return sign * int(text)
        if not text or not text.isdigit():
            raise ValueError("invalid literal for int() with base 10")
        total = 0
        for char in text.chars:
            digit = (ord(char) - 48) if isinstance_(char, str) else mk_num(
                char - 48)
            total = total * 10 + digit
        return sign * total
    return int(value)


def to_float(value=0.0):
    if isinstance_(value, SymNum):
        if value.term.is_real():
            return value
        return SymNum(z3.ToReal(value.term))
    if isinstance_(value, SymStr):
        return float(cur().concretize(value))
    return float(value)


def to_bool(value=False):
    if isinstance_(value, Sym):
        return value.__sxbool__()
    return bool(value)


def do_abs(value):
    return abs(value)


def do_ord(char):
    if isinstance_(char, SymStr) and len(char.chars) == 1:
        return SymNum(char.chars[0])
    return ord(char)


def do_chr(code):
    if isinstance_(code, SymNum):
        return mk_str((code.term,))
    return chr(code)


def do_type(*args):
    if len(args) == 1 and isinstance_(args[0], Sym):
        return args[0].__class__
    return type(*args)


class SymHash(int):
    """Hash of a value with symbolic parts: equal iff the values are equal"""


def _shape(value):
    if isinstance_(value, SymStr):
        return ("s",) + tuple(
            c if isinstance_(c, str) else c.get_id() for c in value.chars)
    if isinstance_(value, Sym):
        return ("t", type(value).__name__, value.term.get_id())
    if type(value) is tuple:
        return tuple(_shape(item) for item in value)
    return ("c", type(value).__name__, value)


def do_hash(value):
    sx = cur()
    table = sx.hashes
    key = _shape(value)
    result = table.get(key)
    if result is None:
        result = SymHash(0x5eab0000000 + len(table) * 7)
        result.value = value
        table[key] = result
    return result


def user_hash(obj):
    """SymHash of object whose (instrumented) class defines __hash__"""
    func = type(obj).__hash__
    if type(func) is not types.FunctionType:
        return None
    if SX_NAME not in func.__globals__:
        return None
    try:
        result = func(obj)
    except (AttributeError, TypeError):
        return None
    return result if type(result) is SymHash else None


SX_NAME = "__sx__"


def do_range(*args):
    return range(*[cur().concretize(a) for a in args])


def do_print(*args, **kwargs):
    file = kwargs.get("file")
    if file is not None:
        sep = kwargs.get("sep")
        end = kwargs.get("end")
        text = concat([str_join(" " if sep is None else sep,
                                [to_str(a) for a in args]),
                       "\n" if end is None else end])
        file.write(text)
        return None
    sx = cur()
    out = getattr(sx, "stdout", None)
    if out is not None:
        sep = kwargs.get("sep")
        end = kwargs.get("end")
        out.append(concat([str_join(" " if sep is None else sep,
                                    [to_str(a) for a in args]),
                           "\n" if end is None else end]))
        return None
    return builtins.print(*[cur().concretize_deep(a) for a in args], **kwargs)


def do_isinstance(obj, cls):
    if isinstance_(obj, Sym):
        return isinstance(obj, cls)
    return isinstance(obj, cls)


# ---------------------------------------------------------------- mappings

def key_is_sym(key):
    typ = type(key)
    if issubclass(typ, Sym):
        return True
    if typ is tuple or typ is frozenset:
        return any(key_is_sym(item) for item in key)
    if typ in _PLAIN_KEYS or cur_or_none() is None:
        return False
    return user_hash(key) is not None


_PLAIN_KEYS = {int, str, bool, float, type(None), bytes, type}


def _prepare_key(sx, key):
    """Give an identity-based hash to the symbolic values inside of key"""
    typ = type(key)
    if issubclass(typ, Sym):
        if key._h is None:
            sx._hseq += 1
            key._h = 0x5eed0000000 + sx._hseq
    elif typ is tuple:
        for item in key:
            _prepare_key(sx, item)


def canonical_key(container, key):
    """Key of container that is equal to key in this path (forks)

    Returns (key, found)
    """
    sx = cur()
    symbolic = key_is_sym(key)
    known = sx.symdicts.get(id(container))
    if not symbolic:
        # a concrete key can be equal to a symbolic key of the container
        if known is None:
            return key, key in container
        if key in container:
            return key, True
        for other in list(container):
            if key_is_sym(other) and _keq(other, key):
                return other, True
        return key, False
    typ = type(key)
    if issubclass(typ, Sym) and key._h is not None and known is not None:
        for other in container:
            if other is key:
                return key, True
    for other in list(container):
        if other is key or _keq(other, key):
            return other, True
    return key, False


def _hash_value(obj):
    """What decides the hash of obj"""
    func = type(obj).__hash__
    if type(func) is types.FunctionType and SX_NAME in func.__globals__:
        result = func(obj)
        return result.value if type(result) is SymHash else result
    return None


def _is_object(value):
    return not isinstance_(value, (Sym, tuple, list, str, int, float, bytes,
                                   frozenset, dict, set, type(None)))


def _keq(left, right):
    if left is right:
        return True
    if _is_object(left) and _is_object(right):
        lhash, rhash = _hash_value(left), _hash_value(right)
        if lhash is None or rhash is None:
            return left == right
        if isinstance_(lhash, int) != isinstance_(rhash, int):
            # one concrete hash against a symbolic one: compare by equality
            return bool(left == right)
        return bool(deep_eq(lhash, rhash)) and bool(left == right)
    if type(left) is tuple and type(right) is tuple:
        return len(left) == len(right) and all(
            _keq(a, b) for a, b in zip(left, right))
    return bool(deep_eq(left, right))


def register_key(container, key):
    sx = cur()
    if id(container) not in sx.symdicts:
        sx.symdicts[id(container)] = container
    _prepare_key(sx, key)


def is_map(container):
    return isinstance_(container, (dict, set, frozenset))


def subkey(container, key):
    """Key used in subscripts (load, store and delete)"""
    if not isinstance_(container, dict):
        return key
    sx = cur_or_none()
    if sx is None:
        return key
    if not key_is_sym(key):
        if id(container) not in sx.symdicts:
            return key
        if sx.symdicts[id(container)] is not container:
            return key
    key, found = canonical_key(container, key)
    if not found and key_is_sym(key):
        register_key(container, key)
    return key


def cur_or_none():
    from . import core
    return core.CURRENT


def mk_set(items):
    result = set()
    for item in items:
        set_add(result, item)
    return result


def mk_dict(pairs):
    result = {}
    for key, value in pairs:
        result[subkey(result, key)] = value
    return result


def set_add(container, item):
    sx = cur_or_none()
    if sx is not None and (key_is_sym(item) or id(container) in sx.symdicts):
        item, found = canonical_key(container, item)
        if found:
            return None
        if key_is_sym(item):
            register_key(container, item)
    set.add(container, item)
    return None


def setop(name, left, right):
    """Operators of sets"""
    if cur_or_none() is not None and isinstance_(left, _SETS) and isinstance_(
            right, _SETS):
        if any(_symmap(x) or any(map(key_is_sym, x)) for x in (left, right)):
            return symbolic_setop(name, left, right)
    return _OPERATORS[name](left, right)


def symbolic_setop(name, left, right):
    left, right = mk_set(left), mk_set(right)
    if name == "sub":
        return mk_set([x for x in left if not contains(x, right)])
    if name == "and":
        return mk_set([x for x in left if contains(x, right)])
    if name == "or":
        return mk_set(list(left) + list(right))
    return mk_set([x for x in left if not contains(x, right)]
                  + [x for x in right if not contains(x, left)])


def isetop(name, left, right):
    """Augmented operators of sets"""
    if cur_or_none() is not None and isinstance_(left, set) and isinstance_(
            right, _SETS):
        if any(_symmap(x) or any(map(key_is_sym, x)) for x in (left, right)):
            result = list(symbolic_setop(name, left, right))
            left.clear()
            for item in result:
                set_add(left, item)
            return left
    return _IOPERATORS[name](left, right)


_SETS = (set, frozenset, type({}.keys()), type({}.items()))
_OPERATORS = {"sub": operator.sub, "and": operator.and_, "or": operator.or_,
              "xor": operator.xor}
_IOPERATORS = {"sub": operator.isub, "and": operator.iand,
               "or": operator.ior, "xor": operator.ixor}


def contains(item, container):
    """item in container"""
    typ = type(container)
    if issubclass(typ, (dict, set, frozenset)):
        sx = cur_or_none()
        if sx is not None and (key_is_sym(item)
                               or id(container) in sx.symdicts):
            return canonical_key(container, item)[1]
        return item in container
    if typ is str and isinstance_(item, SymStr):
        return SymStr(tuple(container)).find(item) != -1
    return item in container


# ---------------------------------------------------------------- calls

def _to_symstr(value):
    return value if isinstance_(value, SymStr) else SymStr(tuple(value))


_STR_METHODS = {
    "find", "rfind", "index", "rindex", "count", "startswith", "endswith",
    "replace", "split", "rsplit", "partition", "rpartition", "strip",
    "lstrip", "rstrip",
}


def call_str_method(text, name, args, kwargs):
    if name == "join":
        return str_join(text, *args)
    if name == "format":
        return str_format(text, args, kwargs)
    if name in _STR_METHODS:
        result = getattr(_to_symstr(text), name)(*args, **kwargs)
        return result
    sx = cur()
    return getattr(text, name)(*[sx.concretize_deep(a) for a in args],
                               **{k: sx.concretize_deep(v)
                                  for k, v in kwargs.items()})


_MISSING = object()


def call_dict_method(func, target, name, args, kwargs):
    if name == "get":
        key, found = canonical_key(target, args[0])
        return target[key] if found else (args[1] if len(args) > 1 else None)
    if name == "setdefault":
        key, found = canonical_key(target, args[0])
        if found:
            return target[key]
        value = args[1] if len(args) > 1 else None
        if key_is_sym(key):
            register_key(target, key)
        target[key] = value
        return value
    if name == "pop":
        key, found = canonical_key(target, args[0])
        if found:
            return dict.pop(target, key)
        if len(args) > 1:
            return args[1]
        raise KeyError(args[0])
    if name in ("__getitem__", "__setitem__", "__delitem__", "__contains__"):
        key = subkey(target, args[0])
        return func(key, *args[1:])
    if name == "update":
        pairs = []
        if args:
            other = args[0]
            pairs = list(other.items()) if isinstance_(other, dict) else [
                tuple(p) for p in other]
        pairs.extend(kwargs.items())
        for key, value in pairs:
            target[subkey(target, key)] = value
        return None
    if name in ("copy",):
        return mk_dict(target.items())
    return func(*args, **kwargs)


def call_set_method(func, target, name, args):
    if name == "add":
        return set_add(target, args[0])
    if name in ("discard", "remove"):
        key, found = canonical_key(target, args[0])
        if found:
            set.discard(target, key)
        elif name == "remove":
            raise KeyError(args[0])
        return None
    if name == "update":
        for other in args:
            for item in list(other):
                set_add(target, item)
        return None
    if name == "copy":
        return mk_set(target)
    if name == "union":
        result = mk_set(target)
        for other in args:
            for item in other:
                set_add(result, item)
        return result
    if name in ("intersection", "difference"):
        want = name == "intersection"
        result = mk_set(target)
        for other in args:
            result = mk_set(
                x for x in result if contains(x, mk_set(other)) is want)
        return result
    if name == "issubset":
        return all(contains(x, mk_set(args[0])) for x in target)
    if name == "issuperset":
        return all(contains(x, target) for x in args[0])
    return func(*args)


def _symmap(value):
    sx = cur_or_none()
    return (sx is not None and isinstance_(value, (dict, set))
            and id(value) in sx.symdicts)


def _mk_set_call(*args):
    if args and (not isinstance_(args[0], (set, frozenset)) or _symmap(args[0])):
        return mk_set(list(args[0]))
    return set(*args)


def _mk_frozenset(*args):
    items = mk_set(list(args[0])) if args else set()
    if any(key_is_sym(x) for x in items):
        return items  # mutable, but with the same observable contents
    return frozenset(items)


def _mk_dict_call(*args, **kwargs):
    if not args:
        return dict(**kwargs)
    src = args[0]
    if isinstance_(src, dict):
        pairs = list(src.items()) if _symmap(src) else None
        if pairs is None:
            return dict(src, **kwargs)
    else:
        pairs = [tuple(x) for x in src]
    result = mk_dict(pairs)
    result.update(kwargs)
    return result


import pickle

_PASS = {
    pickle.dumps, pickle.loads,
    isinstance, issubclass, id, callable, len, iter, next, enumerate, zip,
    map, filter, sorted, reversed, min, max, sum, any, all, list, tuple,
    divmod, setattr, delattr, getattr, hasattr, object, slice, property,
    super, Exception, ValueError, TypeError, KeyError, IndexError,
    RuntimeError, AttributeError, staticmethod, classmethod, vars,
}

_MODELS = {
    str: to_str, repr: to_repr, int: to_int, float: to_float, bool: to_bool,
    ord: do_ord, chr: do_chr, hash: do_hash, format: do_format,
    range: do_range,
}

def _extreme(func, better):
    def model(*args, **kwargs):
        items = list(args[0]) if len(args) == 1 else list(args)
        if kwargs or not items or any(
                num_term(x) is None and not isinstance_(x, float)
                for x in items):
            return func(*args, **kwargs)
        result = items[0]
        for item in items[1:]:
            if not isinstance_(item, Sym) and not isinstance_(result, Sym):
                result = func(result, item)
                continue
            result = ite(better(item, result), item, result)
        return result
    return model


_MODELS[min] = _extreme(min, lambda a, b: a < b)
_MODELS[max] = _extreme(max, lambda a, b: a > b)


_PASS_METHODS = {
    list: {"append", "insert", "extend", "remove", "index", "count", "pop",
           "sort", "__contains__", "__setitem__", "__getitem__"},
    tuple: {"index", "count"},
}


def call(func, /, *args, **kwargs):
    """Call with support for symbolic arguments"""
    tfunc = type(func)
    if tfunc is types.FunctionType or tfunc is types.MethodType:
        if func is _currentframe:
            return FrameView(sys._getframe(1))
        if args and type(args[0]) is type and func.__name__ in (
                "lmap", "lfilter"):
            return list(call(map if func.__name__ == "lmap" else filter,
                             *args))
        return func(*args, **kwargs)
    if tfunc is type:
        if func is type:
            return do_type(*args, **kwargs)
        if func is str and args and not deep_sym(args[0]):
            if len(args) == 1 and not kwargs:
                return to_str(args[0])
            return func(*args, **kwargs)
        if func is set:
            return _mk_set_call(*args)
        if func is frozenset:
            return _mk_frozenset(*args)
        if func is dict:
            return _mk_dict_call(*args, **kwargs)
        if (func is map or func is filter) and args and args[0] is not None:
            inner = args[0]
            if type(inner) is not types.FunctionType:
                return func(lambda *a: call(inner, *a), *args[1:])
        if func is int and len(args) == 1:
            return to_int(*args)
        if func in _MODELS and any(deep_sym(a) for a in args):
            return _MODELS[func](*args, **kwargs)
        return func(*args, **kwargs)
    if tfunc is types.BuiltinMethodType:
        target = getattr(func, "__self__", None)
        ttarget = type(target)
        if target is None or ttarget is types.ModuleType:
            if func is print:
                return do_print(*args, **kwargs) if CURRENT_ON() else func(
                    *args, **kwargs)
            if func is compile and CURRENT_ON() and args and isinstance_(
                    args[0], ast.AST):
                from .instrument import compile_tree
                return compile_tree(*args, **kwargs)
            if func is repr and len(args) == 1:
                return to_repr(args[0])
            if (func is eval or func is exec) and type(args[0]) is str:
                return func(*args, **kwargs)
            if not (any(map(deep_sym, args)) or (
                    kwargs and any(map(deep_sym, kwargs.values())))):
                return func(*args, **kwargs)
            if func in _MODELS:
                return _MODELS[func](*args, **kwargs)
            try:
                if func in _PASS:
                    return func(*args, **kwargs)
            except TypeError:
                raise
            return _concretized(func, args, kwargs)
        name = func.__name__
        if ttarget is str or issubclass(ttarget, str):
            if name == "join":
                return str_join(target, *args)
            if name == "format":
                if CURRENT_ON():
                    return str_format(target, args, kwargs)
                return func(*args, **kwargs)
            if any(map(deep_sym, args)):
                return call_str_method(target, name, args, kwargs)
            return func(*args, **kwargs)
        if issubclass(ttarget, dict):
            if name == "update" or _symmap(target) or (
                    args and key_is_sym(args[0])):
                if CURRENT_ON():
                    return call_dict_method(func, target, name, args, kwargs)
            return func(*args, **kwargs)
        if issubclass(ttarget, set):
            if CURRENT_ON() and (_symmap(target) or any(
                    map(deep_sym, args)) or any(map(_symmap, args))):
                return call_set_method(func, target, name, args)
            return func(*args, **kwargs)
        return func(*args, **kwargs)
    if (tfunc is _PATTERN_METHOD or getattr(func, "__module__", None) == "re"
            ) and any(map(deep_sym, args)):
        return _concretized(func, args, kwargs)
    return func(*args, **kwargs)


_PATTERN_METHOD = type(re.compile("").match)
_currentframe = inspect.currentframe
_HERE = os.path.dirname(os.path.abspath(__file__))


class FrameView(object):
    """Frame in a stack without the frames of the engine"""

    def __init__(self, frame):
        while frame is not None and frame.f_code.co_filename.startswith(_HERE):
            frame = frame.f_back
        self._frame = frame

    @property
    def f_back(self):
        return FrameView(self._frame.f_back)

    def __getattr__(self, name):
        return getattr(self._frame, name)


def CURRENT_ON():
    from . import core
    return core.CURRENT is not None


def _concretized(func, args, kwargs):
    sx = cur()
    return func(*[sx.concretize_deep(a) for a in args],
                **{k: sx.concretize_deep(v) for k, v in kwargs.items()})


def mod(left, right):
    """left % right"""
    if _real_isinstance(left, str) and not isinstance_(left, SymStr):
        if CURRENT_ON():
            return percent_format(left, right)
    return left % right


def reraise_control():
    """First statement of handlers that could swallow engine exceptions"""
    import sys
    from .core import EngineControl
    exc = sys.exc_info()[1]
    if _real_isinstance(exc, EngineControl):
        raise exc
