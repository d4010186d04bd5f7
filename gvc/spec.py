"""vocabulary for contracts: operations over contract values (S wrappers)"""
from fractions import Fraction as F
from . import terms as T
from .terms import S, un
import z3


def _c(f):
    def g(*a):
        return f(*[un(x) for x in a])
    return g


eq, lt, le, gt, ge = map(_c, (T.eq, T.lt, T.le, T.gt, T.ge))


def ne(a, b): return T.not_(T.eq(un(a), un(b)))


def and_(*a):
    r = []
    for x in a:
        if isinstance(x, (list, tuple)):
            r += [un(y) for y in x]
        else:
            r.append(un(x))
    return T.and_(*r)


def or_(*a): return T.or_(*[un(x) for x in a])
def not_(a): return T.not_(un(a))
def implies(a, b): return T.implies(un(a), and_(*b) if isinstance(b, (list, tuple)) else un(b))
def iff(a, b): return T.eq(un(a), un(b))


def ite(c, a, b):
    r = T.ite(un(c), un(a), un(b))
    return r if isinstance(r, (bool, z3.BoolRef)) else S(r)


def absr(a): return S(T.absr(un(a)))
def minr(a, b): return S(T.minr(un(a), un(b)))
def maxr(a, b): return S(T.maxr(un(a), un(b)))
def sqrt(a): return S(T.sqrt(un(a)))
def root(a, n): return S(T.root(un(a), n))
def inv(a): return S(T.inv(un(a)))
def floor_(a): return S(T.floor_(un(a)))
def trunc_(a): return S(T.trunc_(un(a)))


def uf(name, *a, sort='real'):
    r = T.uf(name, *[un(x) for x in a], sort=sort)
    return r if sort == 'bool' else S(r)


def dot(a, b):
    r = S(F(0))
    for x, y in zip(a, b):
        r = r + S(x) * y
    return r


def sqr(a): return S(a) * a
def sumv(xs):
    r = S(F(0))
    for x in xs:
        r = r + x
    return r


def sub(a, b): return [S(x) - y for x, y in zip(a, b)]
def add(a, b): return [S(x) + y for x, y in zip(a, b)]
def scale(k, a): return [S(k) * x for x in a]
def cross(a, b):
    return [S(a[1]) * b[2] - S(a[2]) * b[1], S(a[2]) * b[0] - S(a[0]) * b[2], S(a[0]) * b[1] - S(a[1]) * b[0]]
def veq(a, b): return [eq(x, y) for x, y in zip(a, b)]
def between(lo, x, hi): return and_(le(lo, x), le(x, hi))
