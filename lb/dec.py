"""Fixed-point decimals with the observable semantics of the ledger's number type:
a 96-bit integer mantissa and a scale of 0..28.  Exact wherever the result fits."""
from decimal import Decimal, getcontext

getcontext().prec = 80   # wider than anything the ledgers hold

MAXM = (1 << 96) - 1
MAXS = 28


class Overflow(Exception):
    pass


def _round_half_even(m, p):
    """m / 10**p rounded half to even"""
    neg = m < 0
    m = abs(m)
    q, r = divmod(m, 10 ** p)
    h = 10 ** p
    if 2 * r > h or (2 * r == h and q & 1):
        q += 1
    return -q if neg else q


def _fit(m, s):
    """as many of the digits as can be held, rounded but once"""
    k = max(0, s - MAXS, min(s, len(str(abs(m))) - 29))
    while True:
        q = _round_half_even(m, k)
        if abs(q) <= MAXM:
            return q, s - k
        if k == s:
            raise Overflow()
        k += 1


class D:
    __slots__ = ("m", "s", "approx")

    def __init__(self, m, s=0, approx=False):
        self.m, self.s, self.approx = m, s, approx

    @staticmethod
    def of(x):
        if isinstance(x, D):
            return x
        if isinstance(x, int):
            return D(x, 0)
        if isinstance(x, str):
            x = Decimal(x)
        sign, digits, exp = x.as_tuple()
        m = int("".join(map(str, digits)) or "0")
        if exp > 0:
            m *= 10 ** exp
            exp = 0
        return D(-m if sign else m, -exp)

    def dec(self):
        return Decimal((1 if self.m < 0 else 0, tuple(map(int, str(abs(self.m)))), -self.s))

    def __repr__(self):
        return str(self)

    def __str__(self):
        t = str(abs(self.m)).rjust(self.s + 1, "0")
        if self.s:
            t = t[:-self.s] + "." + t[-self.s:]
        return ("-" if self.m < 0 else "") + t

    def _al(self, o):
        s = max(self.s, o.s)
        return self.m * 10 ** (s - self.s), o.m * 10 ** (s - o.s), s

    def __add__(self, o):
        ap = self.approx or o.approx
        if self.m == 0:
            return D(o.m, o.s, ap)
        if o.m == 0:
            return D(self.m, self.s, ap)
        a, b, s = self._al(o)
        m, s2 = _fit(a + b, s)
        return D(m, s2, ap or s2 != s)

    def __neg__(self):
        return D(-self.m, self.s, self.approx)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        ap = self.approx or o.approx
        if self.m == 0 or o.m == 0:
            return D(0, 0, ap)
        s = self.s + o.s
        m, s2 = _fit(self.m * o.m, s)
        return D(m, s2, ap or s2 != s)

    def div(self, o):
        if o.m == 0:
            return None
        if self.m == 0:
            return D(0, 0, self.approx)
        # as many digits as fit
        neg = (self.m < 0) != (o.m < 0)
        a, b = abs(self.m), abs(o.m)
        if self.s >= o.s and a % b == 0:
            q = a // b      # an exact quotient keeps the scale of the operands: 2.00 / 1 = 2.00
            return D(-q if neg else q, self.s - o.s, True)
        # value = a/b * 10**(o.s - self.s)
        num = a * 10 ** max(0, o.s - self.s)
        den = b * 10 ** max(0, self.s - o.s)
        best = None
        for s in range(MAXS, -1, -1):
            n = num * 10 ** s
            q, r = divmod(n, den)
            if 2 * r > den or (2 * r == den and q & 1):
                q += 1
            if q <= MAXM:
                best = (q, s, r != 0)
                break
        if best is None:
            raise Overflow()
        q, s, inexact = best
        if not inexact:
            while s > 0 and q % 10 == 0:
                q //= 10
                s -= 1
        return D(-q if neg else q, s, True)

    def rescaled(self, s):
        if s == self.s:
            return self
        if self.m == 0:
            return D(0, min(s, MAXS), self.approx)
        if s < self.s:
            p = self.s - s
            neg = self.m < 0
            q, r = divmod(abs(self.m), 10 ** p)
            # only the last discarded digit decides (half away from zero)
            if r * 10 // 10 ** p >= 5:
                q += 1
            return D(-q if neg else q, s, self.approx)
        m, sc = self.m, self.s
        while sc < s and abs(m * 10) <= MAXM:
            m *= 10
            sc += 1
        return D(m, sc, self.approx)

    def __abs__(self):
        return D(abs(self.m), self.s, self.approx)

    def sign(self):
        return (self.m > 0) - (self.m < 0)

    def cmp(self, o):
        a, b, _ = self._al(o)
        return (a > b) - (a < b)

    def __eq__(self, o):
        return isinstance(o, D) and self.cmp(o) == 0

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    def __hash__(self):
        m, s = self.m, self.s
        while s > 0 and m % 10 == 0:
            m //= 10
            s -= 1
        return hash((m, s))


ZERO = D(0, 0)


def near(a, b):
    """numeric equality, allowing for last-digit rounding of inexact results"""
    if a == b:
        return True
    d = abs(a - b)
    big = max(abs(a).dec(), abs(b).dec())
    return d.dec() <= big * Decimal("1e-18")
