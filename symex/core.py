"""Symbolic execution core: explorer, path state and symbolic values.

The real code of noworkflow is executed with these values in place of inputs.
Every branch on a symbolic value is decided by z3: both sides are explored when
both are satisfiable under the current path condition.  Assertions (Sx.check)
are discharged by showing that their negation is unsatisfiable on the path.
"""
from __future__ import annotations

import time
import z3
from fractions import Fraction


class EngineControl(BaseException):
    """Steers paths; never to be swallowed by code under test"""


class PathInfeasible(EngineControl):
    """Assumption is not satisfiable in this path"""


class PathAbort(EngineControl):
    """The path cannot be followed any further (inconclusive)"""


class BudgetExhausted(EngineControl):
    """No more time"""


CURRENT = None  # the Sx of the path being executed


def cur():
    if CURRENT is None:
        raise RuntimeError("no symbolic execution in progress")
    return CURRENT


# ---------------------------------------------------------------- values

_PICKLED = {}


def _unpickle(number):
    return _PICKLED[number]


class Sym(object):
    __slots__ = ()

    def __reduce_ex__(self, protocol):
        _PICKLED[id(self)] = self
        return (_unpickle, (id(self),))


def is_sym(value):
    return isinstance_(value, Sym)


def isinstance_(value, cls):
    """isinstance that ignores __class__ emulation"""
    return issubclass(type(value), cls)


def deep_sym(value, depth=3):
    """Is there a symbolic value in this (possibly nested) value?"""
    typ = type(value)
    if issubclass(typ, Sym):
        return True
    if depth and (typ is tuple or typ is list or typ is set
                  or typ is frozenset):
        return any(deep_sym(x, depth - 1) for x in value)
    if depth and typ is dict:
        return any(deep_sym(x, depth - 1) for x in value.values()) or any(
            deep_sym(x, depth - 1) for x in value)
    return False


def mk_bool(term):
    if z3.is_true(term):
        return True
    if z3.is_false(term):
        return False
    return SymBool(term)


def bool_term(value):
    if isinstance_(value, SymBool):
        return value.term
    if isinstance_(value, Sym):
        return bool_term(value.__sxbool__())
    return z3.BoolVal(bool(value))


def num_term(value):
    """z3 term of number, or None"""
    typ = type(value)
    if issubclass(typ, SymNum):
        return value.term
    if issubclass(typ, SymBool):
        return z3.If(value.term, z3.IntVal(1), z3.IntVal(0))
    if typ is bool:
        return z3.IntVal(1 if value else 0)
    if issubclass(typ, int):
        return z3.IntVal(int(value))
    if issubclass(typ, float):
        if value != value or value in (float("inf"), float("-inf")):
            return None
        frac = Fraction(value)
        return z3.RealVal("%d/%d" % (frac.numerator, frac.denominator))
    return None


def _unify(left, right):
    if left.is_int() and right.is_real():
        left = z3.ToReal(left)
    elif left.is_real() and right.is_int():
        right = z3.ToReal(right)
    return left, right


class SymBool(Sym):
    __slots__ = ("term", "_h")

    def __init__(self, term):
        self.term = term
        self._h = None

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.term)

    def __sxbool__(self):
        return self

    def __eq__(self, other):
        if isinstance_(other, (bool, SymBool)):
            return mk_bool(z3.simplify(self.term == bool_term(other)))
        term = num_term(other)
        if term is None:
            return False
        mine, term = _unify(num_term(self), term)
        return mk_bool(z3.simplify(mine == term))

    def __ne__(self, other):
        return not_(self.__eq__(other))

    def __and__(self, other):
        return mk_bool(z3.simplify(z3.And(self.term, bool_term(other))))
    __rand__ = __and__

    def __or__(self, other):
        return mk_bool(z3.simplify(z3.Or(self.term, bool_term(other))))
    __ror__ = __or__

    def __xor__(self, other):
        return mk_bool(z3.simplify(z3.Xor(self.term, bool_term(other))))
    __rxor__ = __xor__

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def _num(self):
        return SymNum(num_term(self))

    def __add__(self, other):
        return self._num() + other

    def __radd__(self, other):
        return other + self._num()

    def __sub__(self, other):
        return self._num() - other

    def __rsub__(self, other):
        return other - self._num()

    def __mul__(self, other):
        return self._num() * other

    def __rmul__(self, other):
        return other * self._num()

    def __lt__(self, other):
        return self._num() < other

    def __gt__(self, other):
        return self._num() > other

    def __le__(self, other):
        return self._num() <= other

    def __ge__(self, other):
        return self._num() >= other

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(bool(self))

    def __repr__(self):
        sx = CURRENT
        if sx is None:
            return "<SymBool>"
        return sx.repr_of(self)

    __str__ = __repr__

    def __format__(self, spec):
        return format(str(self), spec)

    def __sxrepr__(self):
        return "True" if self else "False"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def not_(value):
    if isinstance_(value, SymBool):
        return mk_bool(z3.simplify(z3.Not(value.term)))
    if isinstance_(value, Sym):
        return not_(value.__sxbool__())
    return not value


def and_(*values):
    terms = []
    for value in values:
        term = bool_term(value)
        if z3.is_false(term):
            return False
        if not z3.is_true(term):
            terms.append(term)
    if not terms:
        return True
    return mk_bool(z3.simplify(z3.And(*terms)))


def or_(*values):
    terms = []
    for value in values:
        term = bool_term(value)
        if z3.is_true(term):
            return True
        if not z3.is_false(term):
            terms.append(term)
    if not terms:
        return False
    return mk_bool(z3.simplify(z3.Or(*terms)))


def implies(left, right):
    return or_(not_(left), right)


def ite(cond, left, right):
    """If-then-else over numbers/booleans without forking"""
    if not isinstance_(cond, Sym):
        return left if cond else right
    cterm = bool_term(cond)
    lt, rt = num_term(left), num_term(right)
    if isinstance_(left, (bool, SymBool)) and isinstance_(right, (bool, SymBool)):
        return mk_bool(z3.simplify(z3.If(cterm, bool_term(left), bool_term(right))))
    if lt is None or rt is None:
        return left if cond else right
    lt, rt = _unify(lt, rt)
    return mk_num(z3.If(cterm, lt, rt))


def mk_num(term):
    term = z3.simplify(term)
    if z3.is_int_value(term):
        return term.as_long()
    return SymNum(term)


def _numop(name, func, boolres=False):
    def method(self, other):
        other_term = num_term(other)
        if other_term is None:
            if boolres and isinstance_(other, float):
                # infinity or nan
                return {"__lt__": 0 < other, "__le__": 0 <= other,
                        "__gt__": 0 > other, "__ge__": 0 >= other}[name]
            return NotImplemented
        mine, other_term = _unify(self.term, other_term)
        res = func(mine, other_term)
        if boolres:
            return mk_bool(z3.simplify(res))
        return mk_num(res)
    method.__name__ = name
    return method


def _swap(func):
    return lambda a, b: func(b, a)


def _floordiv(a, b):
    # python floor division from the euclidean one of z3
    if a.is_real() or b.is_real():
        a = a if a.is_real() else z3.ToReal(a)
        b = b if b.is_real() else z3.ToReal(b)
        return z3.ToReal(z3.ToInt(a / b))
    if z3.is_int_value(b) and b.as_long() > 0:
        return a / b
    # (a div b) for b<0: z3 keeps remainder >= 0;  floor needs remainder <= 0
    return z3.If(b > 0, a / b, (-a) / (-b))


def _mod(a, b):
    if a.is_real() or b.is_real():
        raise PathAbort("modulo of reals")
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - _floordiv(a, b) * b


class SymNum(Sym):
    """Symbolic int (z3 Int) or exact rational standing for float (z3 Real)"""
    __slots__ = ("term", "_h")

    def __init__(self, term):
        self.term = term
        self._h = None

    @property
    def __class__(self):
        return float if self.term.is_real() else int

    def __sxbool__(self):
        return mk_bool(z3.simplify(self.term != 0))

    def __bool__(self):
        return cur().branch(z3.simplify(self.term != 0))

    __add__ = _numop("__add__", lambda a, b: a + b)
    __radd__ = _numop("__radd__", lambda a, b: b + a)
    __sub__ = _numop("__sub__", lambda a, b: a - b)
    __rsub__ = _numop("__rsub__", lambda a, b: b - a)
    _mul = _numop("__mul__", lambda a, b: a * b)
    __lt__ = _numop("__lt__", lambda a, b: a < b, True)
    __le__ = _numop("__le__", lambda a, b: a <= b, True)
    __gt__ = _numop("__gt__", lambda a, b: a > b, True)
    __ge__ = _numop("__ge__", lambda a, b: a >= b, True)

    def __mul__(self, other):
        if isinstance(other, (str, list, tuple, bytes)):
            return int(self) * other
        return self._mul(other)
    __rmul__ = __mul__

    def __eq__(self, other):
        other = num_term(other)
        if other is None:
            return NotImplemented
        mine, other = _unify(self.term, other)
        return mk_bool(z3.simplify(mine == other))

    def __ne__(self, other):
        other = num_term(other)
        if other is None:
            return NotImplemented
        mine, other = _unify(self.term, other)
        return mk_bool(z3.simplify(mine != other))

    def _div(self, other, func, swap=False):
        other = num_term(other)
        if other is None:
            return NotImplemented
        num, den = (other, self.term) if swap else (self.term, other)
        if cur().branch(z3.simplify(den == 0)):
            raise ZeroDivisionError("division by zero")
        return mk_num(func(num, den))

    def __floordiv__(self, other):
        return self._div(other, _floordiv)

    def __rfloordiv__(self, other):
        return self._div(other, _floordiv, True)

    def __mod__(self, other):
        return self._div(other, _mod)

    def __rmod__(self, other):
        if isinstance_(other, str):
            return NotImplemented
        return self._div(other, _mod, True)

    @staticmethod
    def _true(a, b):
        a = a if a.is_real() else z3.ToReal(a)
        b = b if b.is_real() else z3.ToReal(b)
        return a / b

    def __truediv__(self, other):
        return self._div(other, self._true)

    def __rtruediv__(self, other):
        return self._div(other, self._true, True)

    def __divmod__(self, other):
        return (self // other, self % other)

    def __rdivmod__(self, other):
        return (other // self, other % self)

    def __pow__(self, other, mod=None):
        if isinstance_(other, int) and 0 <= other <= 4:
            res = 1
            for _ in range(other):
                res = self * res
            return res
        return int(self) ** (int(other) if isinstance_(other, SymNum) else other)

    def __rpow__(self, other):
        return other ** int(self)

    def __neg__(self):
        return mk_num(-self.term)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_num(z3.If(self.term < 0, -self.term, self.term))

    def __invert__(self):
        return mk_num(-self.term - 1)

    def _conc(self):
        return cur().concretize(self)

    def __int__(self):
        return int(self._conc())

    def __float__(self):
        return float(self._conc())

    def __trunc__(self):
        return int(self._conc())

    def __round__(self, ndigits=None):
        if self.term.is_int():
            return self
        return round(float(self._conc()), ndigits)

    def __index__(self):
        if self.term.is_real():
            raise TypeError("float is not an index")
        return int(self._conc())

    def __and__(self, other):
        return int(self) & int(other)

    def __or__(self, other):
        return int(self) | int(other)

    def __xor__(self, other):
        return int(self) ^ int(other)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __lshift__(self, other):
        other = int(other)
        return self * (1 << other)

    def __rshift__(self, other):
        other = int(other)
        return self // (1 << other)

    def __rlshift__(self, other):
        return other << int(self)

    def __rrshift__(self, other):
        return other >> int(self)

    def bit_length(self):
        return int(self).bit_length()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        if self.term.is_int():
            return True
        return mk_bool(z3.simplify(z3.IsInt(self.term)))

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(self._conc())

    def __repr__(self):
        sx = CURRENT
        if sx is None:
            return "<SymNum>"
        return sx.repr_of(self)

    __str__ = __repr__

    def __format__(self, spec):
        if spec:
            return format(self._conc(), spec)
        return str(self)

    def __sxrepr__(self):
        """Symbolic decimal representation"""
        if self.term.is_real():
            return repr(self._conc())
        sx = cur()
        if sx.branch(z3.simplify(self.term < 0)):
            return "-" + SymNum(-self.term).__sxrepr__()
        digits = 1
        while not sx.branch(z3.simplify(self.term < 10 ** digits)):
            digits += 1
            if digits > 6:
                return repr(self._conc())
        chars = []
        for pos in range(digits - 1, -1, -1):
            digit = (self.term / (10 ** pos)) if pos else self.term
            if pos != digits - 1:
                digit = digit % 10
            chars.append(z3.simplify(digit + 48))
        return mk_str(chars)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class ReprTok(str):
    """Opaque representation of a symbolic value (content is unique per term)"""
    __slots__ = ("value",)

    def __new__(cls, value, name):
        self = super().__new__(cls, name)
        self.value = value
        return self


# ---------------------------------------------------------------- strings

def mk_str(chars):
    """Create str from chars (one-char strings or z3 Int terms)"""
    result = []
    symbolic = False
    for char in chars:
        if not isinstance_(char, str):
            if z3.is_int_value(char):
                char = chr(char.as_long())
            else:
                symbolic = True
        result.append(char)
    if symbolic:
        return SymStr(tuple(result))
    return "".join(result)


def chars_of(value):
    if isinstance_(value, SymStr):
        return value.chars
    return tuple(value)


def char_eq(left, right):
    """z3 Bool or python bool"""
    if isinstance_(left, str) and isinstance_(right, str):
        return left == right
    lterm = z3.IntVal(ord(left)) if isinstance_(left, str) else left
    rterm = z3.IntVal(ord(right)) if isinstance_(right, str) else right
    return mk_bool(z3.simplify(lterm == rterm))


def str_eq(left, right):
    lchars, rchars = chars_of(left), chars_of(right)
    if len(lchars) != len(rchars):
        return False
    terms = []
    for lchar, rchar in zip(lchars, rchars):
        res = char_eq(lchar, rchar)
        if res is False:
            return False
        if res is not True:
            terms.append(res.term)
    if not terms:
        return True
    return mk_bool(z3.simplify(z3.And(*terms)))


def _code(char):
    return z3.IntVal(ord(char)) if isinstance_(char, str) else char


def _is_text(value):
    return isinstance_(value, (str, SymStr))


_WS = " \t\n\r\x0b\x0c"


class SymStr(Sym):
    """Symbolic string: concrete length in each path, symbolic characters"""
    __slots__ = ("chars", "_h")

    def __init__(self, chars):
        self.chars = chars
        self._h = None

    @property
    def __class__(self):
        return str

    # basics
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __sxbool__(self):
        return bool(self.chars)

    def __iter__(self):
        for char in self.chars:
            yield mk_str((char,))

    def __getitem__(self, key):
        if isinstance_(key, slice):
            return mk_str(self.chars[key])
        return mk_str((self.chars[key],))

    def __eq__(self, other):
        if not _is_text(other):
            return NotImplemented
        return str_eq(self, other)

    def __ne__(self, other):
        if not _is_text(other):
            return NotImplemented
        return not_(str_eq(self, other))

    def _cmp_lt(self, other, orequal):
        if not _is_text(other):
            return NotImplemented
        lchars, rchars = self.chars, chars_of(other)
        result = z3.BoolVal(
            len(lchars) <= len(rchars) if orequal else len(lchars) < len(rchars))
        for index in range(min(len(lchars), len(rchars)) - 1, -1, -1):
            left, right = _code(lchars[index]), _code(rchars[index])
            result = z3.If(left == right, result, left < right)
        return mk_bool(z3.simplify(result))

    def __lt__(self, other):
        return self._cmp_lt(other, False)

    def __le__(self, other):
        return self._cmp_lt(other, True)

    def __gt__(self, other):
        res = self._cmp_lt(other, True)
        return res if res is NotImplemented else not_(res)

    def __ge__(self, other):
        res = self._cmp_lt(other, False)
        return res if res is NotImplemented else not_(res)

    def __add__(self, other):
        if not _is_text(other):
            return NotImplemented
        return mk_str(self.chars + chars_of(other))

    def __radd__(self, other):
        if not _is_text(other):
            return NotImplemented
        return mk_str(chars_of(other) + self.chars)

    def __mul__(self, other):
        return mk_str(self.chars * int(other))
    __rmul__ = __mul__

    def __mod__(self, args):
        from .models import percent_format
        return percent_format(self, args)

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(cur().concretize(self))

    def __repr__(self):
        sx = CURRENT
        if sx is None:
            return "<SymStr>"
        return sx.concretize_repr(self)

    def __str__(self):
        sx = CURRENT
        if sx is None:
            return "<SymStr>"
        return sx.concretize(self)

    def __format__(self, spec):
        return format(cur().concretize(self), spec)

    def __sxrepr__(self):
        return repr(cur().concretize(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # search
    def _match_at(self, sub, pos):
        if pos < 0 or pos + len(sub) > len(self.chars):
            return False
        return bool(str_eq(SymStr(self.chars[pos:pos + len(sub)]), sub))

    def __contains__(self, sub):
        if not _is_text(sub):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(sub) != -1

    def find(self, sub, start=0, end=None):
        sub = chars_of(sub)
        start, end, _ = slice(start, end).indices(len(self.chars))
        for pos in range(start, end - len(sub) + 1):
            if self._match_at(SymStr(sub), pos):
                return pos
        return -1

    def rfind(self, sub, start=0, end=None):
        sub = chars_of(sub)
        start, end, _ = slice(start, end).indices(len(self.chars))
        for pos in range(end - len(sub), start - 1, -1):
            if self._match_at(SymStr(sub), pos):
                return pos
        return -1

    def index(self, sub, *args):
        res = self.find(sub, *args)
        if res == -1:
            raise ValueError("substring not found")
        return res

    def rindex(self, sub, *args):
        res = self.rfind(sub, *args)
        if res == -1:
            raise ValueError("substring not found")
        return res

    def count(self, sub):
        size = len(sub)
        if not size:
            return len(self.chars) + 1
        pos = total = 0
        while pos + size <= len(self.chars):
            if self._match_at(sub, pos):
                total += 1
                pos += size
            else:
                pos += 1
        return total

    def startswith(self, prefix, start=0, end=None):
        if isinstance_(prefix, tuple):
            return any(self.startswith(pre, start, end) for pre in prefix)
        chars = self.chars[slice(start, end)]
        if len(prefix) > len(chars):
            return False
        return str_eq(SymStr(chars[:len(prefix)]), prefix)

    def endswith(self, suffix, start=0, end=None):
        if isinstance_(suffix, tuple):
            return any(self.endswith(suf, start, end) for suf in suffix)
        chars = self.chars[slice(start, end)]
        if len(suffix) > len(chars):
            return False
        return str_eq(SymStr(chars[len(chars) - len(suffix):]), suffix)

    # transformation
    def replace(self, old, new, count=-1):
        size = len(old)
        if size == 0:
            return cur().concretize(self).replace(
                cur().concretize(old), cur().concretize(new), count)
        result = []
        pos = 0
        while pos < len(self.chars):
            if count != 0 and self._match_at(old, pos):
                result.extend(chars_of(new))
                pos += size
                count -= 1
            else:
                result.append(self.chars[pos])
                pos += 1
        return mk_str(result)

    def split(self, sep=None, maxsplit=-1):
        result = []
        if sep is None:
            current = []
            for index, char in enumerate(self.chars):
                if maxsplit == 0 and not current:
                    rest = mk_str(self.chars[index:]).lstrip()
                    if rest:
                        result.append(rest)
                    return result
                if _char_in(char, _WS):
                    if current:
                        result.append(mk_str(current))
                        maxsplit -= 1
                        current = []
                else:
                    current.append(char)
            if current:
                result.append(mk_str(current))
            return result
        pos = start = 0
        while pos < len(self.chars):
            if maxsplit != 0 and self._match_at(sep, pos):
                result.append(mk_str(self.chars[start:pos]))
                pos += len(sep)
                start = pos
                maxsplit -= 1
            else:
                pos += 1
        result.append(mk_str(self.chars[start:]))
        return result

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit == -1:
            return self.split(sep) if maxsplit == -1 else \
                cur().concretize(self).rsplit(sep, maxsplit)
        result = []
        end = len(self.chars)
        pos = end - len(sep)
        while pos >= 0:
            if maxsplit != 0 and self._match_at(sep, pos):
                result.append(mk_str(self.chars[pos + len(sep):end]))
                end = pos
                pos -= len(sep)
                maxsplit -= 1
            else:
                pos -= 1
        result.append(mk_str(self.chars[:end]))
        return result[::-1]

    def splitlines(self, keepends=False):
        result = []
        current = []
        for index, char in enumerate(self.chars):
            if _char_in(char, "\n"):
                result.append(mk_str(current + ([char] if keepends else [])))
                current = []
            elif _char_in(char, "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"):
                return cur().concretize(self).splitlines(keepends)
            else:
                current.append(char)
        if current:
            result.append(mk_str(current))
        return result

    def partition(self, sep):
        pos = self.find(sep)
        if pos == -1:
            return (self, "", "")
        return (self[:pos], sep, self[pos + len(sep):])

    def rpartition(self, sep):
        pos = self.rfind(sep)
        if pos == -1:
            return ("", "", self)
        return (self[:pos], sep, self[pos + len(sep):])

    def lstrip(self, chars=None):
        chars = _WS if chars is None else chars
        pos = 0
        while pos < len(self.chars) and _char_in(self.chars[pos], chars):
            pos += 1
        return mk_str(self.chars[pos:])

    def rstrip(self, chars=None):
        chars = _WS if chars is None else chars
        end = len(self.chars)
        while end > 0 and _char_in(self.chars[end - 1], chars):
            end -= 1
        return mk_str(self.chars[:end])

    def strip(self, chars=None):
        res = self.lstrip(chars)
        return res.rstrip(chars)

    def join(self, items):
        from .models import str_join
        return str_join(self, items)

    def _case(self, low, high, delta):
        result = []
        for char in self.chars:
            if isinstance_(char, str):
                result.append(char.lower() if delta > 0 else char.upper())
            else:
                result.append(z3.simplify(z3.If(
                    z3.And(char >= ord(low), char <= ord(high)),
                    char + delta, char)))
        return mk_str(result)

    def encode(self, *args, **kwargs):
        return _bytes_of(self)

    def lower(self):
        return self._case("A", "Z", 32)

    def upper(self):
        return self._case("a", "z", -32)

    def _all_chars(self, func):
        if not self.chars:
            return False
        return and_(*[func(char) for char in self.chars])

    def isdigit(self):
        return self._all_chars(lambda c: c.isdigit() if isinstance_(c, str)
                               else mk_bool(z3.And(c >= 48, c <= 57)))
    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all_chars(lambda c: c.isspace() if isinstance_(c, str)
                               else mk_bool(z3.Or(*[c == ord(w) for w in _WS])))

    def isalpha(self):
        return self._all_chars(
            lambda c: c.isalpha() if isinstance_(c, str) else mk_bool(
                z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            def method(*args, **kwargs):
                sx = cur()
                return getattr(sx.concretize(self), name)(
                    *[sx.concretize(a) for a in args],
                    **{k: sx.concretize(v) for k, v in kwargs.items()})
            return method
        raise AttributeError(name)


def _char_in(char, chars):
    """Does char belong to (concrete) chars? forks"""
    if isinstance_(char, str):
        return char in chars
    terms = [char == _code(other) for other in chars_of(chars)]
    if not terms:
        return False
    return cur().branch(z3.simplify(z3.Or(*terms)))


# ---------------------------------------------------------------- bytes

def mk_bytes(codes):
    """Create bytes from codes (ints or z3 Int terms)"""
    result = []
    symbolic = False
    for code in codes:
        if not isinstance_(code, int):
            if z3.is_int_value(code):
                code = code.as_long()
            else:
                symbolic = True
        result.append(code)
    if symbolic:
        return SymBytes(tuple(result))
    return bytes(result)


def codes_of(value):
    if isinstance_(value, SymBytes):
        return value.codes
    return tuple(bytes(value))


def _is_bytes(value):
    return isinstance_(value, (bytes, bytearray, SymBytes))


class SymBytes(Sym):
    """Symbolic bytes: concrete length in each path, symbolic contents"""
    __slots__ = ("codes", "_h")

    def __init__(self, codes):
        self.codes = codes
        self._h = None

    @property
    def __class__(self):
        return bytes

    def _text(self):
        return mk_str([chr(c) if isinstance_(c, int) else c
                       for c in self.codes])

    def __len__(self):
        return len(self.codes)

    def __bool__(self):
        return bool(self.codes)

    def __sxbool__(self):
        return bool(self.codes)

    def __iter__(self):
        for code in self.codes:
            yield code if isinstance_(code, int) else mk_num(code)

    def __getitem__(self, key):
        if isinstance_(key, slice):
            return mk_bytes(self.codes[key])
        code = self.codes[key]
        return code if isinstance_(code, int) else mk_num(code)

    def __eq__(self, other):
        if not _is_bytes(other):
            return NotImplemented
        return str_eq(self._text(), mk_str([
            chr(c) if isinstance_(c, int) else c for c in codes_of(other)]))

    def __ne__(self, other):
        if not _is_bytes(other):
            return NotImplemented
        return not_(self.__eq__(other))

    def __add__(self, other):
        if not _is_bytes(other):
            return NotImplemented
        return mk_bytes(self.codes + codes_of(other))

    def __radd__(self, other):
        if not _is_bytes(other):
            return NotImplemented
        return mk_bytes(codes_of(other) + self.codes)

    def __hash__(self):
        if self._h is not None:
            return self._h
        return hash(cur().concretize(self))

    def __repr__(self):
        sx = CURRENT
        if sx is None:
            return "<SymBytes>"
        return repr(sx.concretize(self))

    __str__ = __repr__

    def __sxrepr__(self):
        return repr(cur().concretize(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def decode(self, *args):
        return self._text()

    def startswith(self, prefix, *args):
        return self._text().startswith(_latin(prefix), *args)

    def endswith(self, suffix, *args):
        return self._text().endswith(_latin(suffix), *args)

    def find(self, sub, *args):
        return self._text().find(_latin(sub), *args)

    def split(self, sep=None, maxsplit=-1):
        return [_bytes_of(x) for x in self._text().split(
            sep if sep is None else _latin(sep), maxsplit)]

    def replace(self, old, new, count=-1):
        return _bytes_of(self._text().replace(
            _latin(old), _latin(new), count))

    def strip(self, chars=None):
        return _bytes_of(self._text().strip(
            chars if chars is None else _latin(chars)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(bytes, name):
            def method(*args, **kwargs):
                sx = cur()
                return getattr(sx.concretize(self), name)(
                    *[sx.concretize(a) for a in args],
                    **{k: sx.concretize(v) for k, v in kwargs.items()})
            return method
        raise AttributeError(name)


def _latin(value):
    if isinstance_(value, tuple):
        return tuple(_latin(v) for v in value)
    if isinstance_(value, SymBytes):
        return value._text()
    return bytes(value).decode("latin-1")


def _bytes_of(text):
    return mk_bytes([ord(c) if isinstance_(c, str) else c
                     for c in chars_of(text)])


# ---------------------------------------------------------------- equality

def deep_eq(left, right):
    """Structural equality as a single (possibly symbolic) truth value"""
    if left is right:
        return True
    lsym, rsym = isinstance_(left, Sym), isinstance_(right, Sym)
    if isinstance_(left, ReprTok) or isinstance_(right, ReprTok):
        if isinstance_(left, ReprTok) and isinstance_(right, ReprTok):
            return deep_eq(left.value, right.value)
        return left == right
    if lsym or rsym:
        res = left == right
        return res
    if type(left) in (list, tuple) and type(right) is type(left):
        if len(left) != len(right):
            return False
        return and_(*[deep_eq(a, b) for a, b in zip(left, right)])
    if isinstance_(left, dict) and isinstance_(right, dict):
        if deep_sym(list(left)) or deep_sym(list(right)):
            if len(left) != len(right):
                return False
            # keys are pairwise distinct within each dict
            return and_(*[
                or_(*[and_(deep_eq(lk, rk), deep_eq(lv, rv))
                      for rk, rv in right.items()])
                for lk, lv in left.items()])
        if set(left) != set(right):
            return False
        return and_(*[deep_eq(left[k], right[k]) for k in left])
    if isinstance_(left, (set, frozenset)) and isinstance_(right, (set, frozenset)):
        if deep_sym(left) or deep_sym(right):
            return and_(*(
                [or_(*[deep_eq(a, b) for b in right]) for a in left] +
                [or_(*[deep_eq(a, b) for b in left]) for a in right]))
        return left == right
    return left == right


def bag_eq(left, right):
    """Are two lists equal as multisets? no forks"""
    left, right = list(left), list(right)
    if len(left) != len(right):
        return False
    conds = []
    for item in left:
        nleft = sum_([ite(deep_eq(item, other), 1, 0) for other in left])
        nright = sum_([ite(deep_eq(item, other), 1, 0) for other in right])
        conds.append(nleft == nright)
    return and_(*conds)


def sum_(values):
    total = 0
    for value in values:
        total = total + value
    return total


# ---------------------------------------------------------------- explorer

class Stats(object):

    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.aborted = 0
        self.decisions = 0
        self.queries = 0
        self.checks = 0
        self.discharged = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.concretizations = 0
        self.max_depth = 0


class Sx(object):
    """State of one path, and API offered to harnesses in symbolic mode"""

    symbolic = True

    def __init__(self, explorer, prefix, model):
        self.explorer = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.solver = explorer.solver_factory()
        self.model = model
        self.inputs = {}          # name -> (value descriptor)
        self.order = []
        self.pending = []
        self.observations = []
        self.repr_mode = "token"
        self.pinned = {}
        self.small_values = None    # concretize representations in this range
        self.sizes = {}
        self.tokens = {}
        self.check_labels = []
        self.violated = False
        self.deferred_terms = []
        self.symdicts = {}
        self.hashes = {}
        self._hseq = 0
        self.fresh = 0
        self.notes = []

    # -- solver plumbing
    def _check(self, *extra):
        if time.time() > self.explorer.deadline:
            raise BudgetExhausted()
        start = time.time()
        res = self.solver.check(*extra)
        self.stats.solver_s += time.time() - start
        self.stats.queries += 1
        return res

    def _add(self, term):
        self.solver.add(term)

    def _model_true(self, term):
        if self.model is None:
            return None
        val = self.model.eval(term, model_completion=True)
        if z3.is_true(val):
            return True
        if z3.is_false(val):
            return False
        return None

    def branch(self, term):
        """Decide the truth of term in this path, forking if both possible"""
        if isinstance_(term, bool):
            return term
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.pos < len(self.prefix):
            value = self.prefix[self.pos]
            if not isinstance_(value, bool):
                raise PathAbort("path is not deterministic")
            self.pos += 1
            self.taken.append(value)
            self._add(term if value else z3.Not(term))
            return value
        if time.time() > self.explorer.deadline:
            raise BudgetExhausted()
        self.stats.decisions += 1
        value = self._model_true(term)
        if value is None:
            res = self._check(term)
            if res == z3.sat:
                self.model = self.solver.model()
                value = True
            elif res == z3.unsat:
                value = False
            else:
                self.stats.unknown += 1
                raise PathAbort("solver answered unknown")
            if value is False:
                # was the path itself feasible?
                self.pos += 1
                self.taken.append(False)
                self._add(z3.Not(term))
                return False
        other = z3.Not(term) if value else term
        res = self._check(other)
        if res == z3.sat:
            self.explorer.push(self.taken + [not value], self.solver.model())
        elif res != z3.unsat:
            self.stats.unknown += 1
            self.explorer.incomplete("unknown on branch")
        self.taken.append(value)
        self.pos += 1
        self._add(term if value else z3.Not(term))
        if len(self.taken) > self.explorer.max_depth:
            raise PathAbort("too many decisions in one path")
        return value

    def concretize(self, value):
        """Fork over the feasible values of a symbolic value"""
        typ = type(value)
        if not issubclass(typ, Sym):
            return value
        self.stats.concretizations += 1
        if issubclass(typ, SymBool):
            return bool(value)
        if issubclass(typ, SymStr):
            chars = []
            for char in value.chars:
                if isinstance_(char, str):
                    chars.append(char)
                else:
                    chars.append(chr(self._pick(char)))
            return "".join(chars)
        if issubclass(typ, SymBytes):
            return bytes([c if isinstance_(c, int) else self._pick(c)
                          for c in value.codes])
        term = z3.simplify(value.term)
        if z3.is_int_value(term):
            return term.as_long()
        if z3.is_rational_value(term):
            return _rat(term)
        res = self._pick(term)
        self.pinned[value.term.get_id()] = (value.term, res)
        self.pinned[term.get_id()] = (term, res)
        return res

    def _pick(self, term):
        for _ in range(self.explorer.max_values):
            if self.model is None:
                res = self._check()
                if res != z3.sat:
                    raise PathInfeasible()
                self.model = self.solver.model()
            if self.pos < len(self.prefix):
                # deterministic: value is stored in the prefix as a tuple
                guess = self.prefix[self.pos]
                if isinstance_(guess, tuple):
                    self.pos += 1
                    self.taken.append(guess)
                    _, equal, number = guess
                    const = _const_like(term, number)
                    self._add(term == const if equal else term != const)
                    if equal:
                        return number
                    continue
                raise PathAbort("replay diverged")
            val = self.model.eval(term, model_completion=True)
            number = val.as_long() if z3.is_int_value(val) else _rat(val)
            const = _const_like(term, number)
            self.stats.decisions += 1
            res = self._check(term != const)
            if res == z3.sat:
                self.explorer.push(self.taken + [("v", False, number)],
                                   self.solver.model())
            elif res != z3.unsat:
                self.explorer.incomplete("unknown on concretization")
            self.taken.append(("v", True, number))
            self.pos += 1
            self._add(term == const)
            return number
        self.explorer.incomplete("too many values")
        raise PathAbort("too many values for one concretization")

    def concretize_deep(self, value):
        typ = type(value)
        if issubclass(typ, Sym):
            return self.concretize(value)
        if typ is list:
            return [self.concretize_deep(x) for x in value]
        if typ is tuple:
            return tuple(self.concretize_deep(x) for x in value)
        if typ is dict:
            return {self.concretize_deep(k): self.concretize_deep(v)
                    for k, v in value.items()}
        if typ is set:
            return {self.concretize_deep(x) for x in value}
        return value

    def repr_of(self, value):
        """repr()/str() called from C: must be a real str"""
        if self.repr_mode == "token":
            if self.pinned:
                # the path fixed its value
                found = self.pinned.get(value.term.get_id())
                if found is not None:
                    return repr(found[1])
            if self.small_values and self._is_small(value):
                return repr(self.concretize(value))
            key = (type(value).__name__, value.term.get_id(), str(value.term.sort()))
            tok = self.tokens.get(key)
            if tok is None:
                tok = ReprTok(value, "\u00ab%d\u00bb" % len(self.tokens))
                self.tokens[key] = tok
            return tok
        return repr(self.concretize(value))

    def _is_small(self, value):
        """Does the path bound the integer by self.small_values?"""
        if not issubclass(type(value), SymNum) or not z3.is_int(value.term):
            return issubclass(type(value), SymBool)
        key = value.term.get_id()
        found = self.sizes.get(key)
        if found is None:
            low, high = self.small_values
            outside = z3.Or(value.term < low, value.term > high)
            small = self._model_true(outside) is not True and \
                self._check(outside) == z3.unsat
            found = self.sizes[key] = (value.term, small)
        return found[1]

    def concretize_repr(self, value):
        return repr(self.concretize(value))

    # -- harness API
    def _new(self, name, sort):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        const = z3.Const(name, sort)
        return const

    def int(self, name, low, high):
        const = self._new(name, z3.IntSort())
        self.inputs[name] = ("int", const)
        self.order.append(name)
        self._constrain(z3.And(const >= low, const <= high))
        return SymNum(const)

    def real(self, name, low, high):
        """Rational multiple of 1/4 (exact in binary floating point)"""
        const = self._new(name, z3.IntSort())
        self.inputs[name] = ("real4", const)
        self.order.append(name)
        self._constrain(z3.And(const >= 4 * low, const <= 4 * high))
        return SymNum(z3.ToReal(const) / 4)

    def bool(self, name):
        const = self._new(name, z3.BoolSort())
        self.inputs[name] = ("bool", const)
        self.order.append(name)
        return SymBool(const)

    def str(self, name, alphabet, minlen, maxlen):
        """Symbolic string over alphabet; length is forked"""
        length = minlen
        if minlen != maxlen:
            lvar = self.int(name + ".len", minlen, maxlen)
            length = int(lvar)
        consts = []
        codes = sorted(set(ord(c) for c in alphabet))
        for index in range(length):
            const = z3.Int("%s[%d]" % (name, index))
            consts.append(const)
            self._constrain(_in_ranges(const, codes))
        self.inputs[name] = ("str", consts)
        self.order.append(name)
        return mk_str(consts)

    def bytes(self, name, alphabet, minlen, maxlen):
        """Symbolic bytes over alphabet (str); length is forked"""
        return _bytes_of(self.str(name, alphabet, minlen, maxlen))

    def choose(self, name, options):
        """Fork over options"""
        options = list(options)
        if len(options) == 1:
            self.inputs[name] = ("int", z3.IntVal(0))
            self.order.append(name)
            return options[0]
        index = self.int(name, 0, len(options) - 1)
        return options[int(index)]

    def _constrain(self, term):
        """Constraint on fresh variable: cannot make the path infeasible"""
        self.solver.add(term)
        if self.model is not None and self._model_true(term) is not True:
            self.model = None
        if self.model is None and self.pos >= len(self.prefix):
            res = self._check()
            if res == z3.sat:
                self.model = self.solver.model()
            elif res == z3.unsat:
                raise PathInfeasible()

    def assume(self, cond):
        term = bool_term(cond)
        if z3.is_true(term):
            return
        if z3.is_false(term):
            raise PathInfeasible()
        self._constrain(term)

    def check(self, cond, label, known=None, **info):
        """Assertion: its negation must be unsatisfiable in this path

        known: [(finding id, region)]: region of inputs of a known finding
        """
        term = bool_term(cond)
        if self.pos < len(self.prefix):
            # already decided by the path that spawned this one
            if z3.is_false(term):
                raise PathAbort("check violated in prefix")
            if not z3.is_true(term):
                self._add(term)
            return True
        self.stats.checks += 1
        self.explorer.labels[label] = self.explorer.labels.get(label, 0) + 1
        if z3.is_true(term):
            # the path condition made of the branches of the real code
            # already decides it
            self.stats.discharged += 1
            return True
        if self.model is None:
            if self._check() != z3.sat:
                raise PathInfeasible()
            self.model = self.solver.model()
        regions = [bool_term(region) for kid, region in (known or [])
                   if kid in self.explorer.known_ids]
        res = self._check(z3.Not(term), *[z3.Not(r) for r in regions])
        if res == z3.unsat and regions:
            self.explorer.known_hits += 1
            if not z3.is_false(term) and self._check(term) == z3.sat:
                self.model = self.solver.model()
                self._add(term)
            elif self._check(*[z3.Not(r) for r in regions]) == z3.sat:
                raise RuntimeError("inconsistent known region")
            return True
        if res == z3.unsat:
            self.stats.discharged += 1
            return True
        if res == z3.unknown:
            self.stats.unknown += 1
            self.explorer.incomplete("unknown on check " + label)
            return True
        model = self.solver.model()
        self.violated = True
        self.explorer.violation(self, label, model, info)
        # continue where the assertion holds, if possible
        if z3.is_false(term):
            raise PathAbort("check is always violated here")
        self._add(term)
        if self._check() != z3.sat:
            raise PathAbort("check is always violated here")
        self.model = self.solver.model()
        return False

    def possible(self, cond):
        """Is cond satisfiable in this path? (model or None)"""
        term = bool_term(cond)
        if z3.is_false(term):
            return None
        res = self._check(term)
        if res == z3.sat:
            return self.solver.model()
        if res == z3.unknown:
            self.explorer.incomplete("unknown on possible")
        return None

    def observe(self, name, value):
        """Value compared with the one of the concrete run of the same path"""
        self.observations.append((name, value))

    def reach(self, label):
        """Reachability witness"""
        self.explorer.reached[label] = self.explorer.reached.get(label, 0) + 1

    eq = staticmethod(deep_eq)
    bag_eq = staticmethod(bag_eq)
    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    implies = staticmethod(implies)
    ite = staticmethod(ite)
    sum = staticmethod(sum_)

    def values(self, model):
        """Concrete input assignment of a model"""
        result = {}
        for name in self.order:
            kind, const = self.inputs[name]
            if kind == "str":
                result[name] = "".join(
                    chr(model.eval(c, model_completion=True).as_long())
                    for c in const)
            elif kind == "bool":
                result[name] = z3.is_true(
                    model.eval(const, model_completion=True))
            else:
                result[name] = model.eval(
                    const, model_completion=True).as_long()
        return result

    def evaluate(self, value, model):
        """Concrete value of a possibly symbolic value in a model"""
        typ = type(value)
        if issubclass(typ, SymBool):
            return z3.is_true(model.eval(value.term, model_completion=True))
        if issubclass(typ, SymNum):
            val = model.eval(value.term, model_completion=True)
            return val.as_long() if z3.is_int_value(val) else _rat(val)
        if issubclass(typ, SymStr):
            return "".join(
                c if isinstance_(c, str)
                else chr(model.eval(c, model_completion=True).as_long())
                for c in value.chars)
        if issubclass(typ, SymBytes):
            return bytes([
                c if isinstance_(c, int)
                else model.eval(c, model_completion=True).as_long()
                for c in value.codes])
        if issubclass(typ, ReprTok):
            return repr(self.evaluate(value.value, model))
        if typ is list:
            return [self.evaluate(x, model) for x in value]
        if typ is tuple:
            return tuple(self.evaluate(x, model) for x in value)
        if issubclass(typ, (set, frozenset)):
            return typ(self.evaluate(x, model) for x in value)
        if issubclass(typ, dict):
            return {self.evaluate(k, model): self.evaluate(v, model)
                    for k, v in value.items()}
        if issubclass(typ, str) and self.tokens and "\u00ab" in value:
            for tok in self.tokens.values():
                value = value.replace(
                    str.__str__(tok), repr(self.evaluate(tok.value, model)))
        return value

    def cleanup(self, func):
        self.pending.append(func)


def _in_ranges(const, codes):
    ranges = []
    for code in codes:
        if ranges and ranges[-1][1] == code - 1:
            ranges[-1][1] = code
        else:
            ranges.append([code, code])
    return z3.Or(*[
        const == low if low == high else z3.And(const >= low, const <= high)
        for low, high in ranges])


def _rat(val):
    if z3.is_int_value(val):
        return val.as_long()
    frac = Fraction(val.numerator_as_long(), val.denominator_as_long())
    return float(frac)


def _const_like(term, number):
    if term.is_real():
        frac = Fraction(number)
        return z3.RealVal("%d/%d" % (frac.numerator, frac.denominator))
    return z3.IntVal(number)


class Explorer(object):
    """Depth-first exploration by re-execution"""

    def __init__(self, deadline, max_paths=100000, max_depth=4000,
                 max_values=4000, solver_timeout_ms=20000):
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.max_values = max_values
        self.solver_timeout_ms = solver_timeout_ms
        self.stack = []
        self.violations = []
        self.labels = {}
        self.reached = {}
        self.incompletes = {}
        self.complete = True
        self.samples = []
        self.known_ids = set()
        self.known_hits = 0

    def solver_factory(self):
        solver = z3.SimpleSolver()
        solver.set("timeout", self.solver_timeout_ms)
        return solver

    def push(self, prefix, model):
        self.stack.append((prefix, model))

    def incomplete(self, why):
        self.complete = False
        self.incompletes[why] = self.incompletes.get(why, 0) + 1

    def violation(self, sx, label, model, info):
        same = sum(1 for v in self.violations if v["label"] == label)
        if same >= 5:
            return
        self.violations.append({
            "label": label,
            "inputs": sx.values(model),
            "info": {k: _safe(sx, v, model) for k, v in info.items()},
        })

    def run(self, func, on_path=None):
        """Explore all paths of func(sx)"""
        global CURRENT
        self.stack = [([], None)]
        while self.stack:
            if time.time() > self.deadline:
                self.incomplete("time budget")
                break
            if self.stats.paths >= self.max_paths:
                self.incomplete("path budget")
                break
            prefix, model = self.stack.pop()
            sx = Sx(self, prefix, model)
            CURRENT = sx
            try:
                outcome = "ok"
                try:
                    func(sx)
                finally:
                    for cleanup in reversed(sx.pending):
                        cleanup()
            except PathInfeasible:
                self.stats.infeasible += 1
                outcome = "infeasible"
            except PathAbort as exc:
                outcome = "abort"
                if not sx.violated:
                    self.stats.aborted += 1
                    self.incomplete("path aborted: %s" % exc)
            except BudgetExhausted:
                self.incomplete("time budget")
                outcome = "budget"
            except Exception as exc:  # unexpected exception: candidate
                import traceback
                outcome = "exception"
                label = "unexpected-exception:" + type(exc).__name__
                if sx.model is None:
                    try:
                        if sx._check() == z3.sat:
                            sx.model = sx.solver.model()
                    except BudgetExhausted:
                        pass
                if sx.model is not None:
                    self.violation(sx, label, sx.model, {
                        "traceback": traceback.format_exc()[-3000:]})
                else:
                    self.incomplete("exception in infeasible path")
            finally:
                CURRENT = None
            self.stats.max_depth = max(self.stats.max_depth, len(sx.taken))
            if outcome == "ok":
                self.stats.paths += 1
                if on_path:
                    if sx.model is None:
                        if sx._check() == z3.sat:
                            sx.model = sx.solver.model()
                    if sx.model is not None:
                        on_path(sx)
            elif outcome == "budget":
                break
        return self


def _safe(sx, value, model):
    try:
        return repr(sx.evaluate(value, model))
    except Exception as exc:  # pragma: no cover
        return "<%s>" % exc
