"""Symbolic values.  The real functions of /repo run natively in CPython on these proxies: arithmetic and
comparisons build z3 terms, truth tests go through the path explorer (engine.Ctx.branch)."""
import datetime as _dt
import operator
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The code left the subset the verifier understands (a tool limit, never a verdict)."""


class PathEnd(BaseException):
    """This path is finished (infeasible, or the end of a generic loop iteration)."""


CTX = [None]          # the active exploration context


def ctx():
    if CTX[0] is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX[0]


# ---------------------------------------------------------------- strings (identifiers) as integer codes
_lit, _lit_rev = {}, {}


def str_code(s):
    if s not in _lit:
        c = -(len(_lit) + 2)
        _lit[s] = c
        _lit_rev[c] = s
    return _lit[s]


def str_of_code(c):
    return _lit_rev.get(c, "s%d" % c if c >= 0 else "sm%d" % -c)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.e)

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def simp(e):
    return z3.simplify(e)


class SBool(Sym):
    def __bool__(self):
        return ctx().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(self.e == o.e)
        if isinstance(o, bool):
            return SBool(self.e if o else z3.Not(self.e))
        if isinstance(o, (int, float, SNum)):
            return num(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __and__(self, o):
        return SBool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def _n(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__


def zb(x):
    """python/symbolic truth value -> z3 Bool (no fork)"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if type(x).__name__ == "bool_":
        return z3.BoolVal(bool(x))
    raise Unsupported("not a truth value: %r" % (x,))


def snot(x):
    if isinstance(x, SBool):
        return SBool(z3.Not(x.e))
    if isinstance(x, Sym):
        return SBool(z3.Not(truth(x)))
    return not x


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def truth(x):
    """Python truthiness as a z3 formula, without forking"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, SNum):
        return x.e != 0
    if isinstance(x, SStr):
        return x.e != str_code("")
    if isinstance(x, SBits):
        return z3.Not(x.is_empty())
    if isinstance(x, (SDT,)):
        return z3.BoolVal(True)
    if hasattr(x, "pv_truth"):
        return x.pv_truth()
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------- numbers
def realval(x):
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        f = Fraction(x)
        return z3.RatVal(f.numerator, f.denominator)
    if isinstance(x, Fraction):
        return z3.RatVal(x.numerator, x.denominator)
    return z3.RealVal(x)


def znum(x):
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, SBool):
        return x._n().e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return realval(x)
    if isinstance(x, z3.ArithRef):
        return x
    t = type(x).__module__
    if t == "numpy":
        return znum(x.item())
    return None


def num(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e)


def to_real(e):
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def coerce(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return to_real(a), to_real(b)


def _arith(name, f):
    def op(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        a, b = coerce(self.e, b)
        return num(f(a, b))

    def rop(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        a, b = coerce(self.e, b)
        return num(f(b, a))
    return op, rop


def _cmp(f):
    def op(self, o):
        if isinstance(o, str) or o is None:
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):     # every real lies strictly between
            return bool(f(0, o))
        b = znum(o)
        if b is None:
            return NotImplemented
        a, b = coerce(self.e, b)
        return mkbool(f(a, b))
    return op


def _divcheck(b):
    if z3.is_int_value(b) or z3.is_rational_value(b):
        if z3.simplify(b == 0) == True or z3.is_true(z3.simplify(b == 0)):
            raise ZeroDivisionError("division by zero")
        return
    if ctx().branch(b == 0):
        raise ZeroDivisionError("division by zero")


class SNum(Sym):
    """mathematical integer or real (machine floats are treated as reals)"""
    __add__, __radd__ = _arith("add", lambda a, b: a + b)
    __sub__, __rsub__ = _arith("sub", lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, STD):
            return NotImplemented
        b = znum(o)
        if b is None:
            return NotImplemented
        a, b = coerce(self.e, b)
        return num(a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        _divcheck(b)
        return num(to_real(self.e) / to_real(b))

    def __rtruediv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        _divcheck(self.e)
        return num(to_real(b) / to_real(self.e))

    def _fd(self, a, b):
        _divcheck(b)
        if z3.is_int(a) and z3.is_int(b):
            if not (z3.is_int_value(b) and b.as_long() > 0):
                if not ctx().branch(b > 0):
                    raise Unsupported("floor division by a negative symbolic divisor")
            else:
                return num(fdiv(a, b.as_long()))
            return num(a / b)
        return num(z3.ToReal(z3.ToInt(to_real(a) / to_real(b))))

    def __floordiv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        return self._fd(self.e, b)

    def __rfloordiv__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        return self._fd(b, self.e)

    def _md(self, a, b):
        _divcheck(b)
        if z3.is_int(a) and z3.is_int(b):
            if not (z3.is_int_value(b) and b.as_long() > 0):
                if not ctx().branch(b > 0):
                    raise Unsupported("modulo by a negative symbolic divisor")
            else:
                return num(fmod(a, b.as_long()))
            return num(a % b)
        a, b = to_real(a), to_real(b)
        return num(a - b * z3.ToReal(z3.ToInt(a / b)))

    def __pow__(self, o):
        if not isinstance(o, int) or not 0 <= o <= 8:
            return NotImplemented
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __mod__(self, o):
        b = znum(o)
        if b is None:
            return NotImplemented
        return self._md(self.e, b)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        b = znum(o)
        if b is None:
            return NotImplemented
        return self._md(b, self.e)

    def __neg__(self):
        return num(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return num(z3.If(self.e >= 0, self.e, -self.e))

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return False
        b = znum(o)
        if b is None:
            return False
        a, b = coerce(self.e, b)
        return mkbool(a == b)

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("a symbolic integer is needed as a concrete one")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("a symbolic number is needed as a concrete float")

    def __lshift__(self, o):
        raise Unsupported("shift of a symbolic number")

    def __rlshift__(self, o):
        if o == 1 and z3.is_int(self.e):
            return SBits(z3.Store(z3.K(z3.IntSort(), z3.BoolVal(False)), self.e, z3.BoolVal(True)))
        raise Unsupported("shift by a symbolic amount")

    def __round__(self, nd=None):
        return self            # rounding to a display precision is treated as exact (stated assumption)

    @property
    def real(self):
        return self

    def item(self):
        return self


class SStr(Sym):
    """an identifier / text value, compared only for equality"""

    def _code(self, o):
        if isinstance(o, SStr):
            return o.e
        if isinstance(o, str):
            return z3.IntVal(str_code(o))
        return None

    def __eq__(self, o):
        c = self._code(o)
        return False if c is None else mkbool(self.e == c)

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __str__(self):
        return "<sym-str>"

    def __bool__(self):
        return ctx().branch(truth(self))

    def upper(self):
        return self            # weekday and unit names are generated upper-case

    def __lt__(self, o):
        raise Unsupported("ordering of symbolic text")

    __gt__ = __le__ = __ge__ = __lt__


# ---------------------------------------------------------------- unbounded bit masks as sets of bit positions
def _bits_of(n):
    if n < 0:
        return z3.SetComplement(_bits_of(~n))
    a = z3.K(z3.IntSort(), z3.BoolVal(False))
    i = 0
    while n:
        if n & 1:
            a = z3.Store(a, z3.IntVal(i), z3.BoolVal(True))
        n >>= 1
        i += 1
    return a


def zbits(x):
    if isinstance(x, SBits):
        return x.e
    if isinstance(x, int) and not isinstance(x, bool):
        return _bits_of(x)
    raise Unsupported("not a bit mask: %r" % (x,))


class SBits(Sym):
    """arbitrary-precision mask; self.e : Array Int Bool"""

    def is_empty(self):
        return self.e == z3.K(z3.IntSort(), z3.BoolVal(False))

    def __or__(self, o):
        return SBits(z3.SetUnion(self.e, zbits(o)))

    __ror__ = __or__

    def __and__(self, o):
        return SBits(z3.SetIntersect(self.e, zbits(o)))

    __rand__ = __and__

    def __xor__(self, o):
        a, b = self.e, zbits(o)
        return SBits(z3.SetUnion(z3.SetDifference(a, b), z3.SetDifference(b, a)))

    __rxor__ = __xor__

    def __invert__(self):
        return SBits(z3.SetComplement(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBits, int)):
            return SBool(self.e == zbits(o))
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return SBool(z3.Not(self.is_empty()))     # masks are non-negative
        raise Unsupported("ordering of bit masks")

    def __bool__(self):
        return ctx().branch(truth(self))

    __hash__ = None

    def has(self, i):
        return z3.Select(self.e, znum(i))


# ---------------------------------------------------------------- date arithmetic: real seconds since a Monday 00:00
EPOCH = _dt.datetime(2024, 1, 1)           # a Monday
DAY = 86400


def _secs(td):
    return Fraction(td.days * 86400 + td.seconds) + Fraction(td.microseconds, 10 ** 6)


def zdt(x):
    if isinstance(x, SDT):
        return x.e
    if isinstance(x, _dt.datetime):
        return realval(_secs(x.replace(tzinfo=None) - EPOCH))
    return None


def ztd(x):
    if isinstance(x, STD):
        return x.e
    if isinstance(x, _dt.timedelta):
        return realval(_secs(x))
    return None


def split_multiples(e, m):
    """e = m * whole + rest with whole an integer term; (None, e) when nothing can be split off"""
    e = z3.simplify(e, som=True)
    args = e.children() if z3.is_app_of(e, z3.Z3_OP_ADD) else [e]
    whole, rest, any_ = z3.IntVal(0), None, False
    for a in args:
        coef, t = Fraction(1), a
        if z3.is_rational_value(a) or z3.is_int_value(a):
            v = Fraction(a.as_long()) if z3.is_int_value(a) else Fraction(a.numerator_as_long(), a.denominator_as_long())
            n = v // m
            if n and len(args) > 1:
                whole, any_ = whole + z3.IntVal(n), True
                v -= n * m
            if v:
                t = z3.IntVal(int(v)) if z3.is_int(a) else z3.RatVal(v.numerator, v.denominator)
                rest = t if rest is None else rest + t
            continue
        if z3.is_app_of(a, z3.Z3_OP_MUL) and a.num_args() == 2:
            x = a.arg(0)
            if z3.is_int_value(x) or z3.is_rational_value(x):
                coef = Fraction(x.as_long()) if z3.is_int_value(x) else Fraction(x.numerator_as_long(),
                                                                                 x.denominator_as_long())
                t = a.arg(1)
        it = t if z3.is_int(t) else t.arg(0) if z3.is_app_of(t, z3.Z3_OP_TO_REAL) else None
        if it is not None and coef.denominator == 1 and coef % m == 0 and (len(args) > 1 or True):
            whole, any_ = whole + it * int(coef / m), True
        else:
            rest = a if rest is None else rest + a
    if not any_:
        return None, e
    if rest is None:
        rest = z3.IntVal(0) if z3.is_int(e) else z3.RealVal(0)
    return whole, rest


def fdiv(e, m):
    """floor(e / m) for a positive constant m: a fresh integer with its two defining inequalities (linear), or the
    division term where no fact may be introduced"""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // m)
    if z3.is_rational_value(e):
        return z3.IntVal((e.numerator_as_long() // m) // e.denominator_as_long())
    if m == 1 and z3.is_int(e):
        return e
    c = CTX[0]
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return fdiv(e.arg(0), m)
    whole, rest = split_multiples(e, m)
    if whole is not None:
        return z3.simplify(whole + fdiv(rest, m))
    if c is None or c.merging is not None or c.spec:
        r = z3.ToInt(e / m) if z3.is_real(e) else e / m
        if c is not None:
            q = c.__dict__.setdefault("fdivs", {}).get((e.get_id(), m))
            if q is not None:
                return q[1]
        return z3.simplify(r)
    memo = c.__dict__.setdefault("fdivs", {})
    k = (e.get_id(), m)
    if k not in memo:
        q = c.fresh("fd%d" % m, z3.IntSort())
        qe = q if z3.is_int(e) else z3.ToReal(q)
        c.assume(z3.And(qe * m <= e, e < qe * m + m))
        memo[k] = (e, q)
    return memo[k][1]


def fmod(e, m):
    e = z3.simplify(e)
    q = fdiv(e, m)
    return z3.simplify(e - (q if z3.is_int(e) else z3.ToReal(q)) * m)


def floor_int(e):
    return fdiv(e, 1) if z3.is_real(e) else e


class STD(Sym):
    """timedelta; self.e : Real seconds"""

    def total_seconds(self):
        return num(self.e)

    @property
    def seconds(self):
        return num(fmod(floor_int(self.e), DAY))

    @property
    def days(self):
        return num(fdiv(self.e, DAY))

    @property
    def microseconds(self):
        return num(floor_int((self.e - z3.ToReal(floor_int(self.e))) * 1000000))

    def _t(self, o):
        return ztd(o)

    def __add__(self, o):
        t = ztd(o)
        if t is not None:
            return STD(z3.simplify(self.e + t))
        d = zdt(o)
        if d is not None:
            return SDT(z3.simplify(d + self.e))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        t = ztd(o)
        return NotImplemented if t is None else STD(z3.simplify(self.e - t))

    def __rsub__(self, o):
        t = ztd(o)
        if t is not None:
            return STD(z3.simplify(t - self.e))
        d = zdt(o)
        if d is not None:
            return SDT(z3.simplify(d - self.e))
        return NotImplemented

    def __neg__(self):
        return STD(-self.e)

    def __mul__(self, o):
        b = znum(o)
        return NotImplemented if b is None else STD(self.e * to_real(b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        t = ztd(o)
        if t is not None:
            _divcheck(t)
            return num(self.e / t)
        b = znum(o)
        if b is None:
            return NotImplemented
        _divcheck(b)
        return STD(self.e / to_real(b))

    def __floordiv__(self, o):
        t = ztd(o)
        if t is None:
            raise Unsupported("timedelta // number")
        _divcheck(t)
        return num(z3.ToInt(self.e / t))

    def _c(f):
        def op(self, o):
            t = ztd(o)
            return NotImplemented if t is None else mkbool(f(self.e, t))
        return op
    __lt__ = _c(operator.lt)
    __le__ = _c(operator.le)
    __gt__ = _c(operator.gt)
    __ge__ = _c(operator.ge)

    def __eq__(self, o):
        t = ztd(o)
        return False if t is None else mkbool(self.e == t)

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __bool__(self):
        return ctx().branch(self.e != 0)


class STime(Sym):
    """time of day; self.e : Real seconds since midnight"""

    def _c(f):
        def op(self, o):
            t = ztime(o)
            return NotImplemented if t is None else mkbool(f(self.e, t))
        return op
    __lt__ = _c(operator.lt)
    __le__ = _c(operator.le)
    __gt__ = _c(operator.gt)
    __ge__ = _c(operator.ge)

    def __eq__(self, o):
        t = ztime(o)
        return False if t is None else mkbool(self.e == t)

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    @property
    def hour(self):
        return num(fdiv(self.e, 3600))

    @property
    def minute(self):
        return num(fmod(fdiv(self.e, 60), 60))

    @property
    def second(self):
        return num(fmod(floor_int(self.e), 60))


def ztime(x):
    if isinstance(x, STime):
        return x.e
    if isinstance(x, _dt.time):
        return realval(Fraction(x.hour * 3600 + x.minute * 60 + x.second) + Fraction(x.microsecond, 10 ** 6))
    return None


class SDate(Sym):
    """calendar day; self.e : Int day number (0 = a Monday)"""

    def __eq__(self, o):
        d = zdate(o)
        return False if d is None else mkbool(self.e == d)

    def __ne__(self, o):
        return snot(self == o)

    def _c(f):
        def op(self, o):
            d = zdate(o)
            return NotImplemented if d is None else mkbool(f(self.e, d))
        return op
    __lt__ = _c(operator.lt)
    __le__ = _c(operator.le)
    __gt__ = _c(operator.gt)
    __ge__ = _c(operator.ge)
    __hash__ = None

    def weekday(self):
        return num(fmod(self.e, 7))

    def isoweekday(self):
        return num(fmod(self.e, 7) + 1)

    def __add__(self, o):
        t = ztd(o)
        return NotImplemented if t is None else SDate(z3.simplify(self.e + floor_int(t) / DAY))

    __radd__ = __add__

    def __sub__(self, o):
        d = zdate(o)
        if d is not None:
            return STD(z3.simplify(to_real(self.e - d) * DAY))
        t = ztd(o)
        return NotImplemented if t is None else SDate(z3.simplify(self.e - fdiv(t, DAY)))


def zdate(x):
    if isinstance(x, SDate):
        return x.e
    if isinstance(x, _dt.datetime):
        return None
    if isinstance(x, _dt.date):
        return z3.IntVal((x - EPOCH.date()).days)
    return None


class SDT(Sym):
    """datetime; self.e : Real seconds since EPOCH (time zone fixed to UTC)"""
    tzinfo = _dt.timezone.utc

    def __add__(self, o):
        t = ztd(o)
        return NotImplemented if t is None else SDT(z3.simplify(self.e + t))

    __radd__ = __add__

    def __sub__(self, o):
        t = ztd(o)
        if t is not None:
            return SDT(z3.simplify(self.e - t))
        d = zdt(o)
        return NotImplemented if d is None else STD(z3.simplify(self.e - d))

    def __rsub__(self, o):
        d = zdt(o)
        return NotImplemented if d is None else STD(z3.simplify(d - self.e))

    def _c(f):
        def op(self, o):
            d = zdt(o)
            return NotImplemented if d is None else mkbool(f(self.e, d))
        return op
    __lt__ = _c(operator.lt)
    __le__ = _c(operator.le)
    __gt__ = _c(operator.gt)
    __ge__ = _c(operator.ge)

    def __eq__(self, o):
        d = zdt(o)
        return False if d is None else mkbool(self.e == d)

    def __ne__(self, o):
        return snot(self == o)

    __hash__ = None

    def __bool__(self):
        return True

    def _day(self):
        return fdiv(self.e, DAY)

    def _sod(self):
        """seconds since midnight (real)"""
        return fmod(self.e, DAY)

    def weekday(self):
        return num(fmod(self._day(), 7))

    def isoweekday(self):
        return num(fmod(self._day(), 7) + 1)

    def date(self):
        return SDate(z3.simplify(self._day()))

    def time(self):
        return STime(z3.simplify(self.e - to_real(self._day()) * DAY))

    @property
    def hour(self):
        return num(fdiv(self._sod(), 3600))

    @property
    def minute(self):
        return num(fmod(fdiv(self._sod(), 60), 60))

    @property
    def second(self):
        return num(fmod(floor_int(self._sod()), 60))

    @property
    def microsecond(self):
        return num(floor_int((self.e - z3.ToReal(floor_int(self.e))) * 1000000))

    # year/month/day only make sense together (datetime(y, m, d, ...)); they carry the day number
    @property
    def year(self):
        return _YMD(self, "y")

    @property
    def month(self):
        return _YMD(self, "m")

    @property
    def day(self):
        return _YMD(self, "d")

    def replace(self, **kw):
        kw = dict(kw)
        kw.pop("tzinfo", None)
        parts = dict(hour=self.hour, minute=self.minute, second=self.second)
        frac = self.e - z3.ToReal(floor_int(self.e))
        for k, v in kw.items():
            if k == "microsecond":
                frac = to_real(znum(v)) / 1000000
            elif k in parts:
                parts[k] = v
            else:
                raise Unsupported("datetime.replace(%s)" % k)
        s = znum(parts["hour"]) * 3600 + znum(parts["minute"]) * 60 + znum(parts["second"])
        return SDT(z3.simplify(to_real(self._day() * DAY + s) + frac))

    def timestamp(self):
        return num(self.e)

    def astimezone(self, tz=None):
        return self

    def isoformat(self, *a):
        return SStr(z3.Function("isoformat", z3.RealSort(), z3.IntSort())(self.e))

    def strftime(self, fmt):
        return SStr(z3.Function("strftime:" + str(fmt), z3.RealSort(), z3.IntSort())(self.e))


class _YMD:
    def __init__(self, dt, part):
        self.dt, self.part = dt, part

    def __eq__(self, o):
        raise Unsupported("comparison of calendar parts")
