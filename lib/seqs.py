"""Immutable sequences behind iterators; an iterator value is (sequence, position)."""
from dataclasses import dataclass
from typing import Any
from lin import Lin, L, ZERO, ONE
from dom import *


class Seq:
    infinite = False

    def map(self, fn):
        return self

    def length(self, st):
        raise Unsupported("length of " + type(self).__name__)

    def has(self, st, i):
        return st.decide(self.length(st) - i - 1)


@dataclass(frozen=True)
class SliceSeq(Seq):
    sl: Any

    def map(self, fn):
        return SliceSeq(map_value(self.sl, fn))

    def length(self, st):
        return st.norm(self.sl.len)

    def item(self, eng, st, i):
        return VElem(self.sl.rid, st.norm(self.sl.start + i))


@dataclass(frozen=True)
class RangeSeq(Seq):
    lo: Any
    n: Any
    w: int
    signed: bool

    def map(self, fn):
        return RangeSeq(fn(self.lo), fn(self.n), self.w, self.signed)

    def length(self, st):
        return st.norm(self.n)

    def item(self, eng, st, i):
        return VInt(self.w, self.signed, st.norm(self.lo + i))


@dataclass(frozen=True)
class CountSeq(Seq):
    lo: Any
    w: int
    signed: bool
    infinite = True

    def map(self, fn):
        return CountSeq(fn(self.lo), self.w, self.signed)

    def has(self, st, i):
        return True

    def item(self, eng, st, i):
        return VInt(self.w, self.signed, st.norm(self.lo + i))


@dataclass(frozen=True)
class RevSeq(Seq):
    s: Any

    def map(self, fn):
        return RevSeq(self.s.map(fn))

    def length(self, st):
        return self.s.length(st)

    def item(self, eng, st, i):
        return self.s.item(eng, st, st.norm(self.s.length(st) - 1 - i))


@dataclass(frozen=True)
class SkipSeq(Seq):
    s: Any
    n: Any

    def map(self, fn):
        return SkipSeq(self.s.map(fn), fn(self.n))

    @property
    def infinite(self):
        return self.s.infinite

    def length(self, st):
        n = st.norm(self.s.length(st) - self.n)
        return n if st.decide(n) else ZERO

    def has(self, st, i):
        return self.s.has(st, st.norm(L(i) + self.n))

    def item(self, eng, st, i):
        return self.s.item(eng, st, st.norm(L(i) + self.n))


@dataclass(frozen=True)
class TakeSeq(Seq):
    s: Any
    n: Any

    def map(self, fn):
        return TakeSeq(self.s.map(fn), fn(self.n))

    def length(self, st):
        if self.s.infinite:
            return st.norm(self.n)
        m = self.s.length(st)
        return m if st.decide(self.n - m) else st.norm(self.n)

    def has(self, st, i):
        return st.decide(self.n - i - 1) and self.s.has(st, i)

    def item(self, eng, st, i):
        return self.s.item(eng, st, i)


@dataclass(frozen=True)
class StepSeq(Seq):
    s: Any
    k: int

    def map(self, fn):
        return StepSeq(self.s.map(fn), self.k)

    def length(self, st):
        q, r = st.divmod(self.s.length(st) + self.k - 1, self.k)
        return q

    def has(self, st, i):
        return self.s.has(st, st.norm(L(i) * self.k))

    def item(self, eng, st, i):
        return self.s.item(eng, st, st.norm(L(i) * self.k))


@dataclass(frozen=True)
class ZipSeq(Seq):
    a: Any
    b: Any

    def map(self, fn):
        return ZipSeq(self.a.map(fn), self.b.map(fn))

    def length(self, st):
        if self.a.infinite:
            return self.b.length(st)
        if self.b.infinite:
            return self.a.length(st)
        x, y = self.a.length(st), self.b.length(st)
        return x if st.decide(y - x) else y

    def has(self, st, i):
        return self.a.has(st, i) and self.b.has(st, i)

    def item(self, eng, st, i):
        return VTup((self.a.item(eng, st, i), self.b.item(eng, st, i)))


@dataclass(frozen=True)
class ChainSeq(Seq):
    a: Any
    b: Any

    def map(self, fn):
        return ChainSeq(self.a.map(fn), self.b.map(fn))

    @property
    def infinite(self):
        return self.b.infinite

    def length(self, st):
        return st.norm(self.a.length(st) + self.b.length(st))

    def has(self, st, i):
        n = self.a.length(st)
        if st.decide(n - i - 1):
            return True
        return self.b.has(st, st.norm(L(i) - n))

    def item(self, eng, st, i):
        n = self.a.length(st)
        if st.decide(n - i - 1):
            return self.a.item(eng, st, i)
        return self.b.item(eng, st, st.norm(L(i) - n))


@dataclass(frozen=True)
class EnumSeq(Seq):
    s: Any
    off: Any = ZERO

    def map(self, fn):
        return EnumSeq(self.s.map(fn), fn(self.off))

    def length(self, st):
        return self.s.length(st)

    def has(self, st, i):
        return self.s.has(st, i)

    def item(self, eng, st, i):
        return VTup((VInt(64, False, st.norm(L(i) + self.off)), self.s.item(eng, st, i)))


@dataclass(frozen=True)
class ClonedSeq(Seq):
    s: Any

    def map(self, fn):
        return ClonedSeq(self.s.map(fn))

    @property
    def infinite(self):
        return self.s.infinite

    def length(self, st):
        return self.s.length(st)

    def has(self, st, i):
        return self.s.has(st, i)

    def item(self, eng, st, i):
        v = self.s.item(eng, st, i)
        return eng.models.clone_value(eng, st, eng.models.deref(eng, st, v))


@dataclass(frozen=True)
class RepeatSeq(Seq):
    v: Any
    infinite = True

    def map(self, fn):
        return RepeatSeq(map_value(self.v, fn))

    def has(self, st, i):
        return True

    def item(self, eng, st, i):
        return self.v


@dataclass(frozen=True)
class OnceSeq(Seq):
    vs: Any

    def map(self, fn):
        return OnceSeq(tuple(map_value(v, fn) for v in self.vs))

    def length(self, st):
        return L(len(self.vs))

    def item(self, eng, st, i):
        for k, v in enumerate(self.vs):
            if st.decide_eq(L(i) - k):
                return v
        raise Unsupported("once")


@dataclass(frozen=True)
class ChunkSeq(Seq):
    sl: Any
    k: int

    def map(self, fn):
        return ChunkSeq(map_value(self.sl, fn), self.k)

    def length(self, st):
        return st.divmod(self.sl.len + self.k - 1, self.k)[0]

    def has(self, st, i):
        return st.decide(self.sl.len - L(i) * self.k - 1)

    def item(self, eng, st, i):
        rest = st.norm(self.sl.len - L(i) * self.k)
        n = L(self.k) if st.decide(rest - self.k) else rest
        return VSlice(self.sl.rid, st.norm(self.sl.start + L(i) * self.k), n)


@dataclass(frozen=True)
class WindowSeq(Seq):
    sl: Any
    k: int

    def map(self, fn):
        return WindowSeq(map_value(self.sl, fn), self.k)

    def length(self, st):
        n = st.norm(self.sl.len - self.k + 1)
        return n if st.decide(n) else ZERO

    def item(self, eng, st, i):
        return VSlice(self.sl.rid, st.norm(self.sl.start + i), L(self.k))
