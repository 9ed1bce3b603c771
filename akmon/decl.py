"""Comparing the type an array declares with the logical type of its values."""
import numpy
import awkward0.type as AT
from akmon.values import *


class Any(T):
    """a type that nothing in the values determines"""

    def sig(self):
        return "any"


class Same(T):
    """a number type of which only the kind matters"""

    def __init__(self, kind):
        self.kind = kind

    def sig(self):
        return "number:" + self.kind


def typediff(t, tpe, path="type"):
    """None, or how the declared type tpe (of one element) differs from the logical type t"""
    if isinstance(t, Any):
        return None
    if isinstance(t, Same):
        if not isinstance(tpe, numpy.dtype) or tpe.kind != t.kind:
            return "%s: %s, want kind %s" % (path, short(tpe), t.kind)
        return None
    if isinstance(t, Prim):
        if not isinstance(tpe, numpy.dtype) or tpe != t.dtype:
            return "%s: %s, want %s" % (path, short(tpe), t.dtype)
        return None
    if isinstance(t, Reg):
        for n in t.inner:
            if not isinstance(tpe, AT.ArrayType) or tpe.takes != n:
                return "%s: %s, want [0, %d) ->" % (path, short(tpe), n)
            tpe = tpe.to
        return typediff(Prim(t.dtype), tpe, path + ".to")
    if isinstance(t, Lst):
        if not isinstance(tpe, AT.ArrayType) or tpe.takes != numpy.inf:
            return "%s: %s, want a list" % (path, short(tpe))
        return typediff(t.of, tpe.to, path + ".to")
    if isinstance(t, Opt):
        if not isinstance(tpe, AT.OptionType):
            return "%s: %s, want an option" % (path, short(tpe))
        return typediff(t.of, tpe.type, path + ".type")
    if isinstance(t, Rec):
        if not isinstance(tpe, AT.TableType):
            return "%s: %s, want a record" % (path, short(tpe))
        if tpe.columns != [n for n, _ in t.fields]:
            return "%s: columns %s, want %s" % (path, tpe.columns, [n for n, _ in t.fields])
        for n, x in t.fields:
            d = typediff(x, tpe[n], path + "." + n)
            if d is not None:
                return d
        return None
    if isinstance(t, Uni):
        if not isinstance(tpe, AT.UnionType) or len(tpe) != len(t.of):
            return "%s: %s, want a union of %d" % (path, short(tpe), len(t.of))
        for i, x in enumerate(t.of):
            d = typediff(x, tpe[i], "%s|%d" % (path, i))
            if d is not None:
                return d
        return None
    if isinstance(t, Str):
        return None if tpe is str else "%s: %s, want str" % (path, short(tpe))
    if isinstance(t, Byt):
        return None if tpe is bytes else "%s: %s, want bytes" % (path, short(tpe))
    if isinstance(t, Obj):
        return None if callable(tpe) and tpe not in (str, bytes) else "%s: %s, want a function" % (path, short(tpe))
    raise AssertionError(t)


def arraydiff(t, n, tpe):
    """the same for the type of a whole array of n elements"""
    if not isinstance(tpe, AT.ArrayType) or tpe.takes != n:
        return "type: %s, want [0, %d) ->" % (short(tpe), n)
    return typediff(t, tpe.to)
