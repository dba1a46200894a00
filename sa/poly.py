"""Polynomial normal forms of integer terms (symbolic identities, no solver)."""
from fractions import Fraction

from .q import is_call, name_of
from .terms import const, cval, is_const, mk


class Poly:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v}

    def __add__(self, o):
        d = dict(self.m)
        for k, v in o.m.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b, key=lambda t: t.n))
                d[k] = d.get(k, 0) + x * y
        return Poly(d)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def const(self):
        """its value if it is a constant"""
        if not self.m:
            return 0
        if set(self.m) == {()}:
            return self.m[()]
        return None

    def atoms(self):
        return {a for k in self.m for a in k}


def K(n):
    return Poly({(): Fraction(n)})


def V(t):
    return Poly({(t,): Fraction(1)})


def poly(t, lens=None):
    """normal form of an integer term; anything that is not + - * of others is an atom. lens(t): value of len(t), or None"""
    if is_const(t) and isinstance(cval(t), (int, bool)) and cval(t) is not None:
        return K(int(cval(t)))
    if t.op == "bin" and t.args[0] in ("+", "-", "*"):
        a, b = poly(t.args[1], lens), poly(t.args[2], lens)
        return a + b if t.args[0] == "+" else a - b if t.args[0] == "-" else a * b
    if t.op == "neg" or t.op == "un" and t.args[0] == "-":
        return -poly(t.args[-1], lens)
    if is_call(t, "int") and len(t.args[1]) == 1:
        return poly(t.args[1][0], lens)
    if t.op == "len" and lens is not None:
        p = lens(t.args[0])
        if p is not None:
            return p
    return V(t)
