"""Abstract values: shapes are linear expressions (lin.Lin); data words are *bit-provenance* vectors:
ordered segments [lo,hi) whose bits are constants or Boolean functions (truth tables) of bits of named
sources at affine addresses.  No concrete data values or widths are ever enumerated."""
from dataclasses import dataclass
from typing import Any, Tuple
import lin
from lin import Lin, L, ZERO, ONE


class Fork(Exception):
    """the current step needs to know the sign of a linear expression: partition the trace"""
    def __init__(self, e):
        self.e = e


class ForkData(Exception):
    """the current step needs the truth of a data predicate: partition the trace"""
    def __init__(self, p):
        self.p = p


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ bit functions
# src := 0 | 1 | 'T' | ('f', tt, ((key, off, stride), ...))
#   bit b of the segment = tt applied to the bits  key[stride*b + off]
TOPBIT = "T"


def ident(key, off=ZERO, stride=1):
    return ("f", 0b10, ((key, L(off), stride),))


def f_not(s):
    if s == TOPBIT:
        return s
    if s in (0, 1):
        return 1 - s
    n = 1 << len(s[2])
    return ("f", s[1] ^ ((1 << n) - 1), s[2])


def mk_f(tt, srcs):
    """canonicalise: drop irrelevant sources, sort, constant-fold"""
    srcs = list(srcs)
    i = 0
    while i < len(srcs):
        n = len(srcs)
        dep = False
        for x in range(1 << n):
            if not (x >> i) & 1:
                if ((tt >> x) & 1) != ((tt >> (x | (1 << i))) & 1):
                    dep = True
                    break
        if dep:
            i += 1
            continue
        t2, y = 0, 0
        for x in range(1 << n):
            if not (x >> i) & 1:
                if (tt >> x) & 1:
                    t2 |= 1 << y
                y += 1
        tt = t2
        del srcs[i]
    if not srcs:
        return tt & 1
    order = sorted(range(len(srcs)), key=lambda j: repr(srcs[j]))
    if order != list(range(len(srcs))):
        n = len(srcs)
        t2 = 0
        for x in range(1 << n):
            # x indexes new order
            o = 0
            for newpos, old in enumerate(order):
                if (x >> newpos) & 1:
                    o |= 1 << old
            if (tt >> o) & 1:
                t2 |= 1 << x
        tt = t2
        srcs = [srcs[j] for j in order]
    return ("f", tt, tuple(srcs))


MAXSRC = 5


def f_apply(fn, *ss):
    """apply a Boolean function of len(ss) bits to bit functions"""
    k = len(ss)
    if all(s in (0, 1) for s in ss):
        return fn(*ss) & 1
    srcs = []
    top = False
    for s in ss:
        if s == TOPBIT:
            top = True
        elif s not in (0, 1):
            for x in s[2]:
                if x not in srcs:
                    srcs.append(x)
    # TOP operands may still be absorbed (x & 0)
    if top:
        vals = []
        tops = [i for i, s in enumerate(ss) if s == TOPBIT]
        if len(srcs) > MAXSRC or len(tops) > 3:
            return TOPBIT
        res = None
        for m in range(1 << len(tops)):
            s2 = list(ss)
            for j, i in enumerate(tops):
                s2[i] = (m >> j) & 1
            r = f_apply(fn, *s2)
            if res is None:
                res = r
            elif res != r:
                return TOPBIT
        return res
    if len(srcs) > MAXSRC:
        return TOPBIT
    tt = 0
    for x in range(1 << len(srcs)):
        vs = []
        for s in ss:
            if s in (0, 1):
                vs.append(s)
            else:
                i = 0
                for j, y in enumerate(s[2]):
                    if (x >> srcs.index(y)) & 1:
                        i |= 1 << j
                vs.append((s[1] >> i) & 1)
        if fn(*vs) & 1:
            tt |= 1 << x
    return mk_f(tt, srcs)


def f_shift(s, d):
    """the function of bit b, re-expressed for bit b' = b + d   (b = b' - d)"""
    if s in (0, 1, TOPBIT):
        return s
    return mk_f(s[1], [(k, off - d * st if st else off, st) for k, off, st in s[2]])


def f_map(s, fn):
    """fn on offsets and keys"""
    if s in (0, 1, TOPBIT):
        return s
    return mk_f(s[1], [(map_key(k, fn), fn(off), st) for k, off, st in s[2]])


def map_key(k, fn):
    if k[0] == "num":
        return ("num", fn(k[1]))
    if k[0] == "bool":
        return ("bool", map_cond(k[1], fn))
    if k[0] == "mem":        # symbolic word of an opaque term
        return ("mem", map_term(k[1], fn))
    return k


def map_term(t, fn):
    if isinstance(t, Lin):
        return fn(t)
    if isinstance(t, Bits):
        return t.map(fn)
    if isinstance(t, (VInt, VBool, VTup, VAdt, VRef, VSlice, VElem, VIte, VIter, VClosure, VMap, VSym)):
        return map_value(t, fn)
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in COND_TAGS:
            return map_cond(t, fn)
        return tuple(map_term(x, fn) for x in t)
    return t


# ------------------------------------------------------------------ words
class Bits:
    """width-bit vector; segs: tuple of (lo, hi, src) with lo_0 = 0, hi_last = width, lo_{i+1} = hi_i"""
    __slots__ = ("w", "segs", "_h")

    def __init__(self, w, segs):
        self.w = w
        self.segs = tuple(segs)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Bits) and self.w == o.w and self.segs == o.segs

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.w, self.segs))
        return self._h

    def __repr__(self):
        return "B%d{%s}" % (self.w, "; ".join("[%s,%s)=%s" % (l, h, show_src(s)) for l, h, s in self.segs))

    def map(self, fn):
        return Bits(self.w, ((fn(l), fn(h), f_map(s, fn)) for l, h, s in self.segs))

    def const(self):
        v = 0
        for l, h, s in self.segs:
            if s == 0:
                continue
            if s != 1 or not l.is_const() or not h.is_const():
                return None
            v |= ((1 << h.c) - 1) & ~((1 << l.c) - 1)
        return v


def show_src(s):
    if s in (0, 1):
        return str(s)
    if s == TOPBIT:
        return "?"
    xs = ["%s[%s]" % (show_key(k), ("b+" if st else "") + repr(o)) for k, o, st in s[2]]
    if len(xs) == 1:
        return xs[0] if s[1] == 2 else "!" + xs[0]
    names = {0b1000: "and", 0b1110: "or", 0b0110: "xor"}
    if len(xs) == 2 and s[1] in names:
        return "%s(%s)" % (names[s[1]], ", ".join(xs))
    return "tt%x(%s)" % (s[1], ", ".join(xs))


def show_key(k):
    if k[0] == "in":
        return k[1]
    if k[0] == "num":
        return "num(%r)" % (k[1],)
    return repr(k)


def bconst(w, v):
    v &= (1 << w) - 1
    segs, i = [], 0
    while i < w:
        b = (v >> i) & 1
        j = i
        while j < w and ((v >> j) & 1) == b:
            j += 1
        segs.append((L(i), L(j), b))
        i = j
    return Bits(w, segs)


def seg_norm(st, w, segs):
    """drop empty segments, merge equal neighbours"""
    out = []
    for l, h, s in segs:
        l, h = st.norm(l), st.norm(h)
        d = h - l
        if d.is_const():
            if d.c <= 0:
                continue
        else:
            r = st.ge0(d - 1)
            if r is False:
                continue
            if r is None and st.ge0(d) is not True and not st.decide(d - 1):
                continue
            # otherwise: kept although possibly empty
        if s not in (0, 1, TOPBIT):
            s = st.norm_src(s)
        if out and out[-1][2] == s:
            out[-1] = (out[-1][0], h, s)
        else:
            out.append((l, h, s))
    return Bits(w, out)


def le(st, a, b):
    """a <= b, partitioning the trace only when neither order is provable"""
    if st.ge0(b - a):
        return True
    if st.ge0(a - b):
        return False        # a >= b: callers treat equality either way alike
    return st.decide(b - a)


def b_clip(st, segs, lo, hi):
    """segments restricted to [lo,hi)"""
    out = []
    for l, h, s in segs:
        if st.ge0(lo - h):
            continue
        if st.ge0(l - hi):
            break
        if not le(st, lo, h):
            continue
        if not le(st, l, hi):
            break
        nl = l if le(st, lo, l) else lo
        nh = h if le(st, h, hi) else hi
        out.append((nl, nh, s))
    return out


def b_shift(segs, d):
    return [(l + d, h + d, f_shift(s, d)) for l, h, s in segs]


def b_shl(st, b, s):
    s = L(s)
    if s.is_const() and s.c == 0:
        return b
    segs = b_clip(st, b.segs, ZERO, L(b.w) - s)
    return seg_norm(st, b.w, [(ZERO, s, 0)] + b_shift(segs, s))


def b_shr(st, b, s, fill=0):
    s = L(s)
    if s.is_const() and s.c == 0:
        return b
    segs = b_shift(b_clip(st, b.segs, s, L(b.w)), -s)
    if fill == "sign":
        l, h, src = b.segs[-1]
        fill = bit_const(src, L(b.w - 1))
    return seg_norm(st, b.w, segs + [(L(b.w) - s, L(b.w), fill)])


def bit_const(src, b):
    """the function of the single bit b, as a stride-0 function"""
    if src in (0, 1, TOPBIT):
        return src
    return mk_f(src[1], [(k, off + b if st else off, 0) for k, off, st in src[2]])


def b_resize(st, b, w, signed=False):
    if w == b.w:
        return b
    if w < b.w:
        return seg_norm(st, w, b_clip(st, b.segs, ZERO, L(w)))
    fill = 0
    if signed:
        fill = bit_const(b.segs[-1][2], L(b.w - 1))
    return seg_norm(st, w, list(b.segs) + [(L(b.w), L(w), fill)])


def b_zip(st, *bs):
    """common refinement: list of (lo, hi, (src...)); pieces may be empty"""
    idx = [0] * len(bs)
    cur = ZERO
    out = []
    while all(i < len(b.segs) for i, b in zip(idx, bs)):
        his = [b.segs[i][1] for i, b in zip(idx, bs)]
        m = his[0]
        for h in his[1:]:
            if h != m and not le(st, m, h):
                m = h
        out.append((cur, m, tuple(b.segs[i][2] for i, b in zip(idx, bs))))
        for j in range(len(bs)):
            if his[j] == m or st.ge0(m - his[j]):
                idx[j] += 1
        cur = m
    return out


def b_op(st, fn, *bs):
    return seg_norm(st, bs[0].w, [(l, h, f_apply(fn, *ss)) for l, h, ss in b_zip(st, *bs)])


def b_not(b):
    return Bits(b.w, ((l, h, f_not(s)) for l, h, s in b.segs))


# ------------------------------------------------------------------ conditions
COND_TAGS = {"c", "lin", "rz", "ult", "not", "and", "or", "all", "top", "data"}
TRUE, FALSE = ("c", True), ("c", False)


def c_not(c):
    if c[0] == "c":
        return ("c", not c[1])
    if c[0] == "not":
        return c[1]
    if c[0] == "lin":
        return ("lin", -c[1] - 1)
    if c[0] == "and":
        return ("or", c_not(c[1]), c_not(c[2]))
    if c[0] == "or":
        return ("and", c_not(c[1]), c_not(c[2]))
    return ("not", c)


def c_and(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE or a == b:
        return a
    return ("and", a, b)


def c_or(a, b):
    return c_not(c_and(c_not(a), c_not(b)))


def map_cond(c, fn):
    t = c[0]
    if t in ("c", "top", "imprecise"):
        return c
    if t == "lin":
        return ("lin", fn(c[1]))
    if t == "rz":
        return ("rz", f_map(c[1], fn), fn(c[2]), fn(c[3]))
    if t == "ult":
        return ("ult", c[1].map(fn), c[2].map(fn))
    if t in ("not",):
        return ("not", map_cond(c[1], fn))
    if t in ("and", "or"):
        return (t, map_cond(c[1], fn), map_cond(c[2], fn))
    if t == "data":
        return ("data",) + tuple(map_term(x, fn) for x in c[1:])
    if t == "all":
        return ("all", c[1], fn(c[2]), map_cond(c[3], fn))
    raise AssertionError(repr(c)[:600])


# ------------------------------------------------------------------ values
@dataclass(frozen=True, slots=True)
class VInt:
    w: int
    signed: bool
    rep: Any                 # Lin | Bits


@dataclass(frozen=True, slots=True)
class VBool:
    c: Any


@dataclass(frozen=True, slots=True)
class VTup:
    items: Tuple


@dataclass(frozen=True, slots=True)
class VAdt:
    path: str
    variant: int
    fields: Tuple


@dataclass(frozen=True, slots=True)
class VRef:
    key: Any
    path: Tuple = ()


@dataclass(frozen=True, slots=True)
class VSlice:
    rid: int
    start: Any
    len: Any


@dataclass(frozen=True, slots=True)
class VElem:
    rid: int
    idx: Any
    path: Tuple = ()


@dataclass(frozen=True, slots=True)
class VVec:
    rid: int
    kind: str = "vec"


@dataclass(frozen=True, slots=True)
class VFn:
    op: Any                  # index into the program's fn-operand table

    def __hash__(self):
        return id(self.op)


@dataclass(frozen=True, slots=True)
class VClosure:
    inst: str
    caps: Tuple


@dataclass(frozen=True, slots=True)
class VIter:
    seq: Any
    pos: Any


@dataclass(frozen=True, slots=True)
class VIte:
    c: Any
    a: Any
    b: Any


@dataclass(frozen=True, slots=True)
class VStr:
    b: bytes


@dataclass(frozen=True, slots=True)
class VMap:
    term: Any


@dataclass(frozen=True, slots=True)
class VSym:
    """opaque value of an uninterpreted term"""
    term: Any
    ty: Any = None


@dataclass(frozen=True, slots=True)
class VTop:
    why: str = ""


UNIT = VTup(())


def map_value(v, fn):
    """apply fn to every linear expression inside the value"""
    if isinstance(v, VInt):
        return VInt(v.w, v.signed, fn(v.rep) if isinstance(v.rep, Lin) else v.rep.map(fn))
    if isinstance(v, VBool):
        return VBool(map_cond(v.c, fn))
    if isinstance(v, VTup):
        return VTup(tuple(map_value(x, fn) for x in v.items))
    if isinstance(v, VAdt):
        return VAdt(v.path, v.variant, tuple(map_value(x, fn) for x in v.fields))
    if isinstance(v, VSlice):
        return VSlice(v.rid, fn(v.start), fn(v.len))
    if isinstance(v, VElem):
        return VElem(v.rid, fn(v.idx), v.path)
    if isinstance(v, VIter):
        return VIter(v.seq.map(fn), fn(v.pos))
    if isinstance(v, VIte):
        return VIte(map_cond(v.c, fn), map_value(v.a, fn), map_value(v.b, fn))
    if isinstance(v, VClosure):
        return VClosure(v.inst, tuple(map_value(x, fn) for x in v.caps))
    if isinstance(v, VMap):
        return VMap(map_term(v.term, fn))
    if isinstance(v, VSym):
        return VSym(map_term(v.term, fn), v.ty)
    return v


def lins_of(v, out):
    """collect linear expressions"""
    def f(l):
        out.append(l)
        return l
    map_value(v, f)
    return out
