"""Transfer functions of the std / dependency API used by the crate (documented behaviour only)."""
import re
import os
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from seqs import *
from state import Region

OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"
NONE = VAdt(OPT, 0, ())


def some(v):
    return VAdt(OPT, 1, (v,))


def ok(v):
    return VAdt(RES, 0, (v,))


def err(v):
    return VAdt(RES, 1, (v,))


def usize(e):
    return VInt(64, False, L(e))


# ------------------------------------------------------------------ helpers
def deref(eng, st, v, n=8):
    for _ in range(n):
        v = eng.force(st, v)
        if isinstance(v, VRef):
            v = eng.load(st, ("mem", v.key, v.path))
        elif isinstance(v, VElem):
            v = eng.load(st, ("elem", v.rid, v.idx, v.path))
        else:
            return v
    return v


def place_of(v):
    if isinstance(v, VRef):
        return ("mem", v.key, v.path)
    if isinstance(v, VElem):
        return ("elem", v.rid, v.idx, v.path)
    raise Unsupported("not a reference: %s" % type(v).__name__)


def loc(eng, st, v):
    """the innermost reference: place whose content is not itself a reference"""
    for _ in range(8):
        v = eng.force(st, v)
        p = place_of(v)
        x = eng.force(st, eng.load(st, p))
        if isinstance(x, (VRef, VElem)):
            v = x
            continue
        return p, x
    raise Unsupported("reference chain")


def slice_of(eng, st, v):
    v = eng.force(st, v)
    for _ in range(6):
        if isinstance(v, VSlice):
            return VSlice(v.rid, st.norm(v.start), st.norm(v.len))
        if isinstance(v, VVec):
            return VSlice(v.rid, ZERO, st.norm(st.regions[v.rid].len))
        if isinstance(v, VStr):
            return str_slice(eng, st, v)
        if isinstance(v, VAdt) and v.path == "$BV":
            v = v.fields[1]
            continue
        if isinstance(v, VAdt) and v.path == "alloc::borrow::Cow":
            v = v.fields[0]
            continue
        if isinstance(v, (VRef, VElem)):
            v = eng.force(st, eng.load(st, place_of(v)))
            continue
        break
    raise Unsupported("slice from %s" % type(v).__name__)


def elem_eb(t):
    """(bits, tag) of a word-like element type, (None, '') for objects"""
    if t is None:
        return None, ""
    if t["k"] == "int":
        return t["bits"], ("signed" if t.get("signed") else "")
    if t["k"] == "bool":
        return 8, "bool"
    if t["k"] == "char":
        return 32, ""
    return None, ""


def str_slice(eng, st, v):
    key = ("strconst", v.b)
    r = st.mem.get(key)
    if r is None:
        rid = st.new_region(eb=8, length=L(len(v.b)), base=("const", 0), tag="str")
        for i, c in enumerate(v.b):
            st.write_word(rid, i, bconst(8, c))
        r = VVec(rid, "str")
        st.mem[key] = r
        st.mem[("tbl", rid)] = (tuple(v.b), len(st.regions[rid].writes))
    return VSlice(r.rid, ZERO, st.regions[r.rid].len)


def make_array(eng, st, ty, ops):
    et = None
    if ty["k"] in ("array", "slice"):
        et = ty.get("elem_t")
    eb, tag = (None, "")
    if ops and all(isinstance(x, VInt) for x in ops):
        eb, tag = ops[0].w, ("signed" if ops[0].signed else "")
    elif ops and all(isinstance(x, VBool) for x in ops):
        eb, tag = 8, "bool"
    if eb is not None:
        rid = st.new_region(eb=eb, length=L(len(ops)), base=("const", 0), tag=tag)
        for i, x in enumerate(ops):
            st.write_word(rid, i, eng.word(st, x, eb))
    else:
        rid = st.new_region(eb=None, length=L(len(ops)), base=("elems", tuple(ops)))
    return VVec(rid, "array")


def make_fill(eng, st, v, n, kind="array"):
    n = st.norm(L(n))
    if isinstance(v, (VInt, VBool)):
        eb = v.w if isinstance(v, VInt) else 8
        tag = "bool" if isinstance(v, VBool) else ("signed" if v.signed else "")
        rid = st.new_region(eb=eb, length=n, base=("const", 0), tag=tag)
        fill_words(st, rid, ZERO, n, eng.word(st, v, eb))
    else:
        rid = st.new_region(eb=None, length=n, base=("fill", v))
    return VVec(rid, kind)


def fill_words(st, rid, lo, n, b):
    r = st.regions[rid]
    eb = r.eb
    lo, n = st.norm(L(lo)), st.norm(L(n))
    if len(b.segs) == 1 and b.segs[0][2] in (0, 1, TOPBIT):
        if b.segs[0][2] == 0 and not r.writes and r.base == ("const", 0):
            return
        st.regions[rid] = r.repl(writes=r.writes + (("flat", lo * eb, (lo + n) * eb, b.segs[0][2]),))
        return
    iota = lin.new_atom("_i")
    ia = iota.t[0][0]
    segs = tuple((l, h, f_shift(s, (lo + iota) * eb)) for l, h, s in b.segs)
    st.regions[rid] = r.repl(writes=r.writes + (("str", lo * eb, (lo + n) * eb, eb, ia, segs),))


def clone_region(eng, st, rid):
    r = st.regions[rid]
    i = st.W.fresh()
    if r.eb is None and r.base[0] in ("elems", "fill") and not r.writes:
        if r.base[0] == "elems":
            r = r.repl(base=("elems", tuple(clone_value(eng, st, x) for x in r.base[1])))
        else:
            r = r.repl(base=("fill", clone_value(eng, st, r.base[1])))
    st.regions[i] = r
    return i


def clone_value(eng, st, v):
    v = eng.force(st, v) if isinstance(v, VIte) else v
    if isinstance(v, VVec):
        return VVec(clone_region(eng, st, v.rid), v.kind)
    if isinstance(v, VAdt):
        return VAdt(v.path, v.variant, tuple(clone_value(eng, st, x) for x in v.fields))
    if isinstance(v, VTup):
        return VTup(tuple(clone_value(eng, st, x) for x in v.items))
    if isinstance(v, VMap):
        return maps.clone_map(eng, st, v)
    return v


def copy_slice(eng, st, sl, kind="vec"):
    """fresh owned buffer with the contents of the slice"""
    r = st.regions[sl.rid]
    sl = VSlice(sl.rid, st.norm(sl.start), st.norm(sl.len))
    if sl.start == ZERO and sl.len == st.norm(r.len):
        return VVec(clone_region(eng, st, sl.rid), kind)
    if r.eb is None:
        raise Unsupported("copy of an object slice")
    eb = r.eb
    segs = st.read_flat(sl.rid, sl.start * eb, (sl.start + sl.len) * eb)
    d = sl.start * eb
    ws = tuple(("flat", st.norm(l - d), st.norm(h - d), f_shift(s, -d)) for l, h, s in segs)
    rid = st.new_region(eb=eb, length=sl.len, base=("const", 0), writes=ws, tag=r.tag)
    return VVec(rid, kind)


def copy_into(eng, st, dst, src):
    rd, rs = st.regions[dst.rid], st.regions[src.rid]
    if rd.eb is None or rd.eb != rs.eb:
        raise Unsupported("copy of objects")
    eb = rd.eb
    segs = st.read_flat(src.rid, src.start * eb, (src.start + src.len) * eb)
    d = (dst.start - src.start) * eb
    ws = tuple(("flat", st.norm(l + d), st.norm(h + d), f_shift(s, d)) for l, h, s in segs)
    st.regions[dst.rid] = rd.repl(writes=rd.writes + ws)


def as_iter(eng, st, v):
    v = eng.force(st, v)
    if isinstance(v, VIter):
        return v
    if isinstance(v, VSlice):
        return VIter(SliceSeq(v), ZERO)
    if isinstance(v, VVec):
        return VIter(ClonedSeq(SliceSeq(VSlice(v.rid, ZERO, st.regions[v.rid].len))), ZERO)
    if isinstance(v, VAdt):
        if v.path == "core::ops::range::Range" or v.path.endswith("range::Range"):
            a, b = eng.force(st, v.fields[0]), eng.force(st, v.fields[1])
            lo, hi = eng.num(st, a), eng.num(st, b)
            return VIter(RangeSeq(lo, st.norm(hi - lo), a.w, a.signed), ZERO)
        if v.path.endswith("range::RangeFrom"):
            a = eng.force(st, v.fields[0])
            return VIter(CountSeq(eng.num(st, a), a.w, a.signed), ZERO)
        if v.path.endswith("range::RangeInclusive"):
            a = eng.force(st, v.fields[0])
            lo, hi = eng.num(st, a), eng.num(st, v.fields[1])
            return VIter(RangeSeq(lo, st.norm(hi - lo + 1), a.w, a.signed), ZERO)
        if v.path == OPT:
            return VIter(OnceSeq(tuple(v.fields)), ZERO)
        return v
    if isinstance(v, (VRef, VElem)):
        p, x = loc(eng, st, v)
        if isinstance(x, VVec):
            return VIter(SliceSeq(VSlice(x.rid, ZERO, st.regions[x.rid].len)), ZERO)
        if isinstance(x, VSlice):
            return VIter(SliceSeq(x), ZERO)
        if isinstance(x, VMap):
            return VIter(maps.entries_seq(eng, st, x, "kv"), ZERO)
        if isinstance(x, VIter) or (isinstance(x, VAdt) and x.path != "$BV"):
            return v
    if isinstance(v, VMap):
        return VIter(maps.entries_seq(eng, st, v, "own"), ZERO)
    raise Unsupported("iterate %s" % type(v).__name__)


def seq_at(st, it):
    """sequence of the remaining items"""
    if not isinstance(it, VIter):
        raise Unsupported("adaptor over %s" % type(it).__name__)
    p = st.norm(it.pos)
    return it.seq if p == ZERO else SkipSeq(it.seq, p)


def rng(eng, st, idx, n):
    """range index -> (start, end)"""
    if isinstance(idx, VAdt):
        nm = idx.path.rsplit("::", 1)[-1]
        f = [eng.num(st, x) for x in idx.fields[:2] if isinstance(eng.force(st, x), VInt)]
        if nm == "Range":
            return f[0], f[1]
        if nm == "RangeFrom":
            return f[0], n
        if nm == "RangeTo":
            return ZERO, f[0]
        if nm == "RangeFull":
            return ZERO, n
        if nm == "RangeInclusive":
            return f[0], f[1] + 1
        if nm == "RangeToInclusive":
            return ZERO, f[0] + 1
    raise Unsupported("index by %r" % (idx,))


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


def index(eng, st, sl, idx):
    idx = eng.force(st, idx)
    if isinstance(idx, VInt):
        i = eng.num(st, idx)
        if not st.decide(sl.len - i - 1):
            raise Panic("index out of bounds")
        return VElem(sl.rid, st.norm(sl.start + i))
    lo, hi = rng(eng, st, idx, sl.len)
    if not st.decide(hi - lo):
        raise Panic("slice index starts after its end")
    if not st.decide(sl.len - hi):
        raise Panic("slice index out of range")
    return VSlice(sl.rid, st.norm(sl.start + lo), st.norm(hi - lo))


def same_len(eng, st, a, b):
    e = st.norm(a.len - b.len)
    return st.decide(e) and st.decide(-e)


def expand_sym(eng, st, v):
    raise Unsupported("opaque value inspected: %r" % (v.term,))


# ------------------------------------------------------------------ dispatch
TABLE = {}
RX = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def model_rx(*pats):
    def deco(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return deco


class Ctx:
    __slots__ = ("eng", "st", "fr", "body", "o", "args", "dest", "target", "sp", "name", "path", "rpath")

    def ret(self, v):
        self.eng.finish(self.st, self.dest, v, self.target)
        return True

    def shim(self, name, args):
        at = FLAT.get(name)
        if at is not None and isinstance(args[at], VAdt) and args[at].path == "$Flatten" and args[at].fields[1] == NONE:
            # nothing consumed yet: a loop nest
            name, args = name + "_flat", list(args[:at]) + [args[at].fields[0]] + list(args[at + 1:])
        self.eng.push(self.st, self.eng.P.shim[name], args, self.dest, self.target, self.sp)
        return True

    def ty_arg(self, i):
        a = self.o.get("args") or []
        if i < len(a) and isinstance(a[i], int):
            return self.body["_types"][a[i]]
        return None

    def sl(self, i):
        return slice_of(self.eng, self.st, self.args[i])

    def num(self, i):
        return self.eng.num(self.st, deref(self.eng, self.st, self.args[i]))


FLAT = {"collect_vec": 0, "extend_vec": 1, "for_each": 0, "fold": 0}
_rx_cache = {}


def lookup(path):
    f = TABLE.get(path)
    if f is not None:
        return f
    if path in _rx_cache:
        return _rx_cache[path]
    r = None
    for rx, g in RX:
        if rx.search(path):
            r = g
            break
    _rx_cache[path] = r
    return r


def call(eng, st, fr, body, o, args, dest, target, sp):
    path = o["path"]
    rp = o.get("rpath") or path
    f = lookup(rp) if rp != path else None
    f = f or lookup(path)
    if f is None:
        return False
    c = Ctx()
    c.eng, c.st, c.fr, c.body, c.o, c.args, c.dest, c.target, c.sp = eng, st, fr, body, o, list(args), dest, target, sp
    c.path, c.rpath, c.name = path, rp, path.rsplit("::", 1)[-1]
    try:
        r = f(c)
    except Panic as p:
        eng.panic(st, p.msg, fr, sp)
        return True
    return bool(r)


# ------------------------------------------------------------------ bit-vector receivers
@model("bv::ops::BitVecOps::width")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VAdt) and v.path == "$BV":
        return c.ret(v.fields[0])
    return False


@model("bv::ops::BitVecOps::words", "bv::ops::BitVecMutOps::words_mut")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VAdt) and v.path == "$BV":
        return c.ret(slice_of(c.eng, c.st, v.fields[1]))
    return False


@model("core::convert::Into::into", "core::convert::From::from")
def _(c):
    if c.name == "into" and c.o.get("rkind") == "unresolved":
        v = c.args[0]
        if isinstance(v, (VRef, VElem)):
            b = deref(c.eng, c.st, v)
            if isinstance(b, VAdt) and b.path in ("bv::owned::BitVecValue", "bv::borrowed::BitVecValueMutRef", "bv::borrowed::BitVecValueRef"):
                # the only conversions into a value reference borrow the words
                return c.ret(VAdt("bv::borrowed::BitVecValueRef", 0, (b.fields[0], slice_of(c.eng, c.st, b.fields[1]))))
        return c.ret(v)
    return False


@model("core::borrow::Borrow::borrow")
def _(c):
    if c.o.get("rkind") == "unresolved":
        v = c.args[0]
        # &&T collapses: hand out the inner reference
        p, x = loc(c.eng, c.st, v)
        if p[0] == "mem":
            return c.ret(VRef(p[1], tuple(p[2])))
        return c.ret(VElem(p[1], p[2], p[3]))
    return False


# ------------------------------------------------------------------ panics, formatting
@model_rx(r"^core::panicking::(panic|panic_fmt|panic_nounwind.*|panic_display|panic_explicit|unreachable_display|panic_str.*)$",
          r"^std::panicking::", r"^core::panicking::assert_failed", r"^core::option::(unwrap|expect)_failed$",
          r"^core::result::unwrap_failed$", r"^core::panicking::panic_(const|bounds|misaligned|cannot).*",
          r"^core::slice::index::slice_.*_fail$", r"^alloc::raw_vec::", r"^std::process::(abort|exit)")
def _(c):
    msg = c.name
    for a in c.args:
        v = a
        if isinstance(v, VStr):
            msg = v.b.decode("utf8", "replace")
        elif isinstance(v, VSym) and v.term and v.term[0] == "fmt":
            msg = v.term[1]
    c.eng.panic(c.st, msg, c.fr, c.sp)
    return True


@model("core::panicking::todo_default_msg", "core::panicking::unreachable_default_msg",
       "core::panicking::unimplemented_default_msg")
def _(c):
    return c.ret(VSym(("fmt", c.name.split("_")[0] + "!()")))


def append_text(st, rid, what):
    """append formatted text of unknown length: the decimal digits of a number, or anything"""
    r = st.regions[rid]
    at = st.norm(r.len)
    if what is None:
        n = st.term_atom(("fmtlen", st.W.fresh()), False, 0)
        src = TOPBIT
    else:
        n = st.term_atom(("displen", what), False, 1)
        src = ident(("mem", ("display", what)), -at * 8)
    st.regions[rid] = r.repl(length=st.norm(at + n), writes=r.writes + (("flat", at * 8, (at + n) * 8, src),), tag="opaque")


@model_rx(r"^core::fmt::Formatter.*::(write_|pad|debug_)", r"^core::fmt::(Display|Debug|LowerHex|UpperHex|Binary)::fmt$")
def _(c):
    if c.name == "fmt" and c.o.get("inst"):
        return False
    return c.ret(ok(UNIT))


@model_rx(r"::drop_in_place", r"^core::mem::(drop|forget)$", r"^core::hint::(assert_unchecked|black_box)", r"^core::intrinsics::assume")
def _(c):
    return c.ret(UNIT)


@model("core::mem::replace")
def _(c):
    p = place_of(c.args[0])
    old = c.eng.load(c.st, p)
    c.eng.store(c.st, p, c.args[1])
    return c.ret(old)


@model("core::mem::swap")
def _(c):
    p, q = place_of(c.args[0]), place_of(c.args[1])
    a, b = c.eng.load(c.st, p), c.eng.load(c.st, q)
    c.eng.store(c.st, p, b)
    c.eng.store(c.st, q, a)
    return c.ret(UNIT)


@model("core::mem::take")
def _(c):
    p, x = loc(c.eng, c.st, c.args[0])
    if isinstance(x, VVec):
        r = c.st.regions[x.rid]
        rid = c.st.new_region(eb=r.eb, length=ZERO, base=r.base if r.eb is None else ("const", 0), tag=r.tag)
        c.eng.store(c.st, p, VVec(rid, x.kind))
        return c.ret(x)
    if isinstance(x, VInt):
        c.eng.store(c.st, p, VInt(x.w, x.signed, ZERO))
        return c.ret(x)
    return False


# ------------------------------------------------------------------ slices
@model_rx(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$")
def _(c):
    return c.ret(VIter(SliceSeq(c.sl(0)), ZERO))


@model_rx(r"^core::slice::<impl \[T\]>::len$", r"^alloc::vec::Vec::<T, A>::len$", r"^smallvec::SmallVec::<A>::len$",
          r"^alloc::string::String::len$", r"^core::str::<impl str>::len$")
def _(c):
    return c.ret(usize(c.sl(0).len))


@model_rx(r"^core::slice::<impl \[T\]>::is_empty$", r"^alloc::vec::Vec::<T, A>::is_empty$",
          r"^smallvec::SmallVec::<A>::is_empty$", r"^core::str::<impl str>::is_empty$", r"^alloc::string::String::is_empty$")
def _(c):
    n = c.sl(0).len
    return c.ret(VBool(c.st.cond_norm(("lin", -n))))


@model_rx(r"^core::slice::<impl \[T\]>::(first|first_mut|last|last_mut)$")
def _(c):
    s = c.sl(0)
    if not c.st.decide(s.len - 1):
        return c.ret(NONE)
    i = s.start if c.name.startswith("first") else s.start + s.len - 1
    return c.ret(some(VElem(s.rid, c.st.norm(i))))


@model_rx(r"^core::slice::<impl \[T\]>::(split_first|split_first_mut|split_last|split_last_mut)$")
def _(c):
    s = c.sl(0)
    if not c.st.decide(s.len - 1):
        return c.ret(NONE)
    if c.name.startswith("split_first"):
        return c.ret(some(VTup((VElem(s.rid, s.start), VSlice(s.rid, s.start + 1, s.len - 1)))))
    return c.ret(some(VTup((VElem(s.rid, c.st.norm(s.start + s.len - 1)), VSlice(s.rid, s.start, s.len - 1)))))


@model_rx(r"^core::slice::<impl \[T\]>::(get|get_mut)$")
def _(c):
    s = c.sl(0)
    idx = c.eng.force(c.st, c.args[1])
    try:
        return c.ret(some(index(c.eng, c.st, s, idx)))
    except Panic:
        return c.ret(NONE)


@model_rx(r"^core::slice::<impl \[T\]>::(get_unchecked|get_unchecked_mut)$")
def _(c):
    return c.ret(index(c.eng, c.st, c.sl(0), c.args[1]))


@model_rx(r"^core::slice::<impl \[T\]>::(split_at|split_at_mut)$")
def _(c):
    s, m = c.sl(0), c.num(1)
    if not c.st.decide(s.len - m):
        raise Panic("split_at: mid > len")
    return c.ret(VTup((VSlice(s.rid, s.start, m), VSlice(s.rid, c.st.norm(s.start + m), c.st.norm(s.len - m)))))


@model_rx(r"^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$")
def _(c):
    d, s = c.sl(0), c.sl(1)
    if not same_len(c.eng, c.st, d, s):
        raise Panic("copy_from_slice: length mismatch")
    copy_into(c.eng, c.st, d, s)
    return c.ret(UNIT)


@model_rx(r"^core::slice::<impl \[T\]>::fill$")
def _(c):
    s = c.sl(0)
    r = c.st.regions[s.rid]
    if r.eb is None:
        return False
    fill_words(c.st, s.rid, s.start, s.len, c.eng.word(c.st, c.args[1], r.eb))
    return c.ret(UNIT)


@model_rx(r"^core::slice::<impl \[T\]>::swap$")
def _(c):
    s, i, j = c.sl(0), c.num(1), c.num(2)
    if not (c.st.decide(s.len - i - 1) and c.st.decide(s.len - j - 1)):
        raise Panic("index out of bounds")
    a = c.eng.load(c.st, ("elem", s.rid, c.st.norm(s.start + i), ()))
    b = c.eng.load(c.st, ("elem", s.rid, c.st.norm(s.start + j), ()))
    c.eng.store(c.st, ("elem", s.rid, c.st.norm(s.start + i), ()), b)
    c.eng.store(c.st, ("elem", s.rid, c.st.norm(s.start + j), ()), a)
    return c.ret(UNIT)


@model_rx(r"^core::slice::<impl \[T\]>::(chunks|chunks_mut|windows)$")
def _(c):
    n = c.num(1)
    if not n.is_const() or n.c <= 0:
        return False
    return c.ret(VIter((WindowSeq if c.name == "windows" else ChunkSeq)(c.sl(0), n.c), ZERO))


@model_rx(r"^alloc::slice::<impl \[T\]>::(to_vec|into_vec|to_owned)$", r"<impl .*ToOwned for \[T\]>::to_owned$")
def _(c):
    return c.ret(copy_slice(c.eng, c.st, c.sl(0)))


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VMap):
        return False
    if not isinstance(v, (VSlice, VVec, VStr)):
        return False
    return c.ret(index(c.eng, c.st, slice_of(c.eng, c.st, v), c.args[1]))


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
       "core::convert::AsMut::as_mut")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, (VVec, VSlice)):
        return c.ret(slice_of(c.eng, c.st, v))
    if isinstance(v, VAdt) and v.path == "alloc::borrow::Cow":
        return c.ret(v.fields[0])
    if isinstance(v, VStr):
        return c.ret(v)
    return False


@model_rx(r"^(smallvec::SmallVec::<A>|alloc::vec::Vec::<T, A>|alloc::string::String)::(as_slice|as_mut_slice|as_str|as_bytes|as_mut_str)$",
          r"^core::str::<impl str>::as_bytes$", r"^alloc::string::String::into_bytes$", r"^core::array::<impl \[T; N\]>::as_slice$",
          r"::into_boxed_slice$", r"^alloc::boxed::Box::<\[T\]>::into_vec$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if c.name in ("into_bytes", "into_boxed_slice", "into_vec"):
        return c.ret(v)
    return c.ret(slice_of(c.eng, c.st, v))


# ------------------------------------------------------------------ vectors
def new_vec(c, t, kind="vec"):
    eb, tag = elem_eb(t)
    if t is not None and t["k"] == "param":
        tag = "lazy"
    base = ("elems", ()) if eb is None else ("const", 0)
    return VVec(c.st.new_region(eb=eb, length=ZERO, base=base, tag=tag), kind)


@model_rx(r"^alloc::vec::Vec::<T>::(new|with_capacity)$", r"^smallvec::SmallVec::<A>::(new|with_capacity)$")
def _(c):
    t = c.ty_arg(0)
    if c.path.startswith("smallvec"):
        t = {"k": "int", "bits": 64, "signed": False}
        return c.ret(new_vec(c, t, "small"))
    return c.ret(new_vec(c, t))


@model_rx(r"^alloc::string::String::(new|with_capacity)$")
def _(c):
    return c.ret(VVec(c.st.new_region(eb=8, length=ZERO, base=("const", 0), tag="str"), "string"))


def push(eng, st, v, x):
    r = st.regions[v.rid]
    if r.tag == "lazy" and isinstance(x, VInt):
        r = r.repl(eb=x.w, base=("const", 0), tag="signed" if x.signed else "")
        st.regions[v.rid] = r
    elif r.tag == "lazy":
        r = r.repl(tag="")
        st.regions[v.rid] = r
    n = st.norm(r.len)
    if r.eb is not None:
        if r.tag == "str" and isinstance(x, VInt) and isinstance(x.rep, Lin) and x.rep.is_const() and x.rep.c > 127:
            raise Unsupported("non-ascii text")
        st.write_word(v.rid, n, eng.word(st, x, r.eb))
    else:
        st.write_obj(v.rid, n, x)
    st.regions[v.rid] = st.regions[v.rid].repl(length=st.norm(n + 1))


def append(eng, st, v, src):
    r = st.regions[v.rid]
    n = st.norm(r.len)
    rs = st.regions[src.rid]
    if r.tag == "lazy" and rs.eb is not None:
        r = st.regions[v.rid] = r.repl(eb=rs.eb, base=("const", 0), tag=rs.tag)
    if r.eb is None:
        m = st.norm(src.len)
        if m.is_const() and rs.eb is None:
            for i in range(m.c):
                push(eng, st, v, clone_value(eng, st, eng.load(st, ("elem", src.rid, st.norm(src.start + i), ()))))
            return
        raise Unsupported("append of objects")
    copy_into(eng, st, VSlice(v.rid, n, src.len), src)
    st.regions[v.rid] = st.regions[v.rid].repl(length=st.norm(n + src.len))


@model_rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::string::String)::push$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    push(c.eng, c.st, v, c.args[1])
    return c.ret(UNIT)


@model_rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>)::extend_from_slice$", r"^alloc::string::String::push_str$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    append(c.eng, c.st, v, c.sl(1))
    return c.ret(UNIT)


@model_rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>)::(resize|truncate|clear|pop)$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    r = c.st.regions[v.rid]
    n = c.st.norm(r.len)
    if c.name == "clear":
        c.st.regions[v.rid] = r.repl(length=ZERO)
        return c.ret(UNIT)
    if c.name == "pop":
        if not c.st.decide(n - 1):
            return c.ret(NONE)
        x = c.eng.load(c.st, ("elem", v.rid, n - 1, ()))
        c.st.regions[v.rid] = r.repl(length=n - 1)
        return c.ret(some(x))
    m = c.num(1)
    if c.name == "truncate":
        if c.st.decide(n - m):
            c.st.regions[v.rid] = r.repl(length=m)
        return c.ret(UNIT)
    if c.st.decide(n - m):
        c.st.regions[v.rid] = r.repl(length=m)
        return c.ret(UNIT)
    if r.eb is None:
        if n == ZERO and not r.writes:
            c.st.regions[v.rid] = r.repl(length=m, base=("fill", c.args[2]))
            return c.ret(UNIT)
        return False
    b = c.eng.word(c.st, c.args[2], r.eb)
    if len(b.segs) == 1 and b.segs[0][2] in (0, 1):
        c.st.regions[v.rid] = r.repl(length=m, writes=r.writes + (("flat", n * r.eb, m * r.eb, b.segs[0][2]),))
    else:
        fill_words(c.st, v.rid, n, m - n, b)
        c.st.regions[v.rid] = c.st.regions[v.rid].repl(length=m)
    return c.ret(UNIT)


@model_rx(r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>|alloc::string::String|std::collections::hash::map::HashMap::<K, V, S.*>)::(shrink_to_fit|reserve|reserve_exact)$")
def _(c):
    return c.ret(UNIT)


@model("alloc::vec::from_elem")
def _(c):
    return c.ret(make_fill(c.eng, c.st, c.args[0], c.num(1), "vec"))


@model_rx(r"^smallvec::SmallVec::<A>::from_elem$")
def _(c):
    return c.ret(make_fill(c.eng, c.st, c.args[0], c.num(1), "small"))


@model_rx(r"^smallvec::SmallVec::<A>::(from_slice|from_vec|from_buf|from)$")
def _(c):
    return c.ret(copy_slice(c.eng, c.st, c.sl(0), "small"))


@model_rx(r"^<?alloc::vec::Vec<.*From<&(mut )?\[T\]>>::from$", r"^<?alloc::vec::Vec<.*From<\[T; N\]>>::from$",
          r"^alloc::boxed::convert::<impl core::convert::From<&\[T\]>", r"^<?smallvec::SmallVec<.*From<.*>>::from$",
          r"^<?alloc::string::String as core::convert::From<&str>>::from$",
          r"^<?alloc::vec::Vec<.*From<alloc::boxed::Box", r"^<?alloc::boxed::.*From<alloc::vec::Vec")
def _(c):
    return c.ret(copy_slice(c.eng, c.st, c.sl(0), "small" if "smallvec" in c.rpath else "vec"))


@model("alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, (VStr, VSlice, VVec)):
        return c.ret(copy_slice(c.eng, c.st, slice_of(c.eng, c.st, v), "string"))
    if c.name == "to_owned":
        return c.ret(clone_value(c.eng, c.st, v))
    rid = c.st.new_region(eb=8, length=ZERO, base=("const", 0), tag="str")
    what = None
    if isinstance(v, VInt) and not v.signed and v.w > 8:
        what = v.rep if isinstance(v.rep, Bits) else c.st.bits_of(v.rep, v.w)
    append_text(c.st, rid, what)
    return c.ret(VVec(rid, "string"))


@model("core::clone::Clone::clone")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, (VVec, VMap, VSym, VIter, VInt, VBool, VSlice, VRef, VStr)) or c.o.get("inst") is None and isinstance(v, VTup) or (isinstance(v, VAdt) and v.path.startswith("$")):
        return c.ret(clone_value(c.eng, c.st, v))
    return False


@model_rx(r"^alloc::boxed::Box::<T>::new$")
def _(c):
    return c.ret(c.args[0])


@model_rx(r"^alloc::boxed::Box::<T>::new_uninit$")
def _(c):
    key = ("tmp", c.st.W.fresh())
    # the union of the unit and a ManuallyDrop
    c.st.mem[key] = VAdt("$Uninit", 0, (VTop("uninit"), VAdt("$Drop", 0, (VTop("uninit"),))))
    return c.ret(VRef(key))


@model_rx(r"^alloc::boxed::box_assume_init_into_vec_unsafe$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VAdt) and v.path == "$Uninit":
        v = v.fields[1].fields[0]
    if isinstance(v, VVec):
        return c.ret(VVec(v.rid, "vec"))
    return False


# ------------------------------------------------------------------ equality / hashing / order of buffers
@model("core::ptr::eq", "core::ptr::addr_eq")
def _(c):
    a, b = c.args
    if isinstance(a, VSlice) and isinstance(b, VSlice) and a.rid == b.rid:
        same = [c.st.decide(x) and c.st.decide(-x) for x in (c.st.norm(a.len - b.len), c.st.norm(a.start - b.start))]
        return c.ret(VBool(TRUE)) if all(same) else False
    if isinstance(a, VRef) and a == b:
        return c.ret(VBool(TRUE))
    if isinstance(a, VElem) and isinstance(b, VElem) and a.rid == b.rid and a.path == b.path:
        i, j = (VInt(64, False, c.st.norm(L(x.idx) if isinstance(x.idx, int) else x.idx)) for x in (a, b))
        return c.ret(c.eng.binop(c.st, c.fr, "Eq", i, j, None))
    return False


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _(c):
    a, b = deref(c.eng, c.st, c.args[0]), deref(c.eng, c.st, c.args[1])
    neg = c.name == "ne"

    def out(cond):
        return c.ret(VBool(c_not(cond) if neg else cond))
    if isinstance(a, VStr) and isinstance(b, VStr):
        return out(("c", a.b == b.b))
    if isinstance(a, (VSlice, VVec, VStr)) and isinstance(b, (VSlice, VVec, VStr)):
        x, y = slice_of(c.eng, c.st, a), slice_of(c.eng, c.st, b)
        rx, ry = c.st.regions[x.rid], c.st.regions[y.rid]
        if rx.tag == "opaque" or ry.tag == "opaque":
            return out(("top", "opaque text"))
        if rx.eb is None or ry.eb is None:
            e = c.st.norm(x.len - y.len)
            if not (c.st.decide(e) and c.st.decide(-e)):
                return out(FALSE)
            if not x.len.is_const():
                return False
            return out(("c", all(maps.keys_equal(c.eng, c.st, c.eng.load(c.st, ("elem", x.rid, c.st.norm(x.start + i), ())),
                                                 c.eng.load(c.st, ("elem", y.rid, c.st.norm(y.start + i), ()))) for i in range(x.len.c))))
        if rx.eb is not None and rx.eb == ry.eb:
            e = c.st.norm(x.len - y.len)
            if not (c.st.decide(e) and c.st.decide(-e)):
                return out(FALSE)
            return out(flat_eq(c.eng, c.st, x, y))
        return False
    if isinstance(a, VAdt) and isinstance(b, VAdt) and a.path == b.path and not a.fields and not b.fields:
        return out(("c", a.variant == b.variant))
    if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
        v = c.eng.binop(c.st, c.fr, "Ne" if neg else "Eq", a, b, None)
        return c.ret(v)
    return False


def flat_eq(eng, st, x, y):
    """condition: equal-length word buffers hold the same bits"""
    eb = st.regions[x.rid].eb
    n = x.len * eb
    d = x.start * eb
    sx = [(st.norm(l - d), st.norm(h - d), f_shift(s, -d)) for l, h, s in st.read_flat(x.rid, d, d + n)]
    d2 = y.start * eb
    sy = [(st.norm(l - d2), st.norm(h - d2), f_shift(s, -d2)) for l, h, s in st.read_flat(y.rid, d2, d2 + n)]
    cond = TRUE
    i = j = 0
    pos = ZERO
    while i < len(sx) and j < len(sy):
        hx, hy = sx[i][1], sy[j][1]
        m = hx if (hx == hy or st.decide(hy - hx)) else hy
        s = f_apply(lambda p, q: p ^ q, sx[i][2], sy[j][2])
        cond = c_and(cond, st.rz_norm(s, pos, m))
        if hx == m or st.decide(m - hx):
            i += 1
        if hy == m or st.decide(m - hy):
            j += 1
        pos = m
    return cond


@model_rx(r"^<smallvec::SmallVec<A> as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$",
          r"^core::slice::cmp::<impl core::cmp::(Ord|PartialOrd) for \[T\]>::(cmp|partial_cmp)$",
          r"^<alloc::vec::Vec.* as core::cmp::(Ord|PartialOrd).*>::(cmp|partial_cmp)$",
          r"^<\[T\] as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp)$")
def _(c):
    if "partial" in c.name:
        return False
    x, y = c.sl(0), c.sl(1)
    if c.st.regions[x.rid].eb != 64:
        return False
    return c.shim("words_cmp", [x, y])


@model("core::hash::Hash::hash", "core::hash::Hasher::write_u64", "core::hash::Hasher::write_u32", "core::hash::Hasher::write_usize",
       "core::hash::Hasher::write_u8", "core::hash::Hasher::write_u16", "core::hash::Hasher::write", "core::hash::Hash::hash_slice")
def _(c):
    if c.o.get("inst"):
        return False
    if c.path.startswith("core::hash::Hasher"):
        v = c.args[1]
    else:
        v = c.args[0]
    x = deref(c.eng, c.st, v)
    if isinstance(x, (VVec, VSlice)):
        s = slice_of(c.eng, c.st, x)
        snap = st_snapshot(c.eng, c.st, s)
        c.st.effects = c.st.effects + (("hash", "slice", snap),)
        return c.ret(UNIT)
    if isinstance(x, VInt):
        c.st.effects = c.st.effects + (("hash", "u%d" % x.w, x),)
        return c.ret(UNIT)
    if isinstance(x, VBool):
        c.st.effects = c.st.effects + (("hash", "bool", x),)
        return c.ret(UNIT)
    return False


def st_snapshot(eng, st, s):
    eb = st.regions[s.rid].eb
    d = s.start * eb
    segs = tuple((st.norm(l - d), st.norm(h - d), f_shift(x, -d)) for l, h, x in st.read_flat(s.rid, d, d + s.len * eb))
    return (eb, s.len, segs)


# ------------------------------------------------------------------ integers
def _int(c, i=0):
    v = deref(c.eng, c.st, c.args[i])
    if not isinstance(v, VInt):
        raise Unsupported("integer method on %s" % type(v).__name__)
    return v


@model_rx(r"^core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(?!from_[lbn]e_bytes)\w+$")
def _(c):
    eng, st = c.eng, c.st
    n = c.name
    if n in ("MAX", "MIN", "BITS"):
        return False
    if n in ("from_str_radix",):
        return parse_int(c)
    a = deref(eng, st, c.args[0]) if c.args else None
    if not isinstance(a, VInt):
        return False
    b = deref(eng, st, c.args[1]) if len(c.args) > 1 else None
    t = {"bits": a.w, "signed": a.signed}
    w = a.w
    x = stdmore.constval(a)
    y = stdmore.constval(b)
    if x is not None and (b is None or y is not None) and len(c.args) <= 2:
        r = stdmore.fold(c, a, b, x, y)
        if r is not None:
            return c.ret(r)

    def ints():
        return eng.num(st, a), eng.num(st, b)

    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "overflowing_add", "overflowing_sub", "overflowing_mul",
             "checked_add", "checked_sub", "checked_mul", "unchecked_add", "unchecked_sub", "unchecked_mul",
             "saturating_sub", "saturating_add", "strict_add", "strict_sub", "strict_mul"):
        op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[n.rsplit("_", 1)[1]]
        r = eng.binop(st, c.fr, op + "WithOverflow", a, b, None)
        v, ov = r.items
        kind = n.split("_")[0]
        if kind == "overflowing":
            return c.ret(r)
        if kind in ("wrapping", "unchecked"):
            if isinstance(ov, VBool) and ov.c[0] == "lin" and isinstance(v, VInt) and isinstance(v.rep, Lin) and not lin.is_data(v.rep) and not a.signed:
                if st.decide_cond(ov.c):
                    v = VInt(w, False, v.rep + (1 << w))
            return c.ret(v)
        if kind == "checked":
            if isinstance(ov, VBool):
                return c.ret(NONE if st.decide_cond(ov.c) else some(v))
            return False
        if kind == "saturating":
            if st.decide_cond(ov.c):
                return c.ret(VInt(w, a.signed, ZERO if op == "Sub" else L((1 << w) - 1)))
            return c.ret(v)
        if st.decide_cond(ov.c):
            raise Panic("attempt to %s with overflow" % op.lower())
        return c.ret(v)
    if n == "wrapping_neg":
        return c.ret(eng.binop(st, c.fr, "Sub", VInt(w, a.signed, ZERO), a, None)) if not a.signed else False
    if n in ("carrying_add", "borrowing_sub"):
        cin = eng.force(st, c.args[2])
        k = eng.num(st, cin)
        x, y = ints()
        e = x + y + k if n[0] == "c" else x - y - k
        q, r = st.divmod(e, 1 << w)
        over = ("lin", e - (1 << w)) if n[0] == "c" else ("lin", -e - 1)
        return c.ret(VTup((VInt(w, a.signed, r), VBool(st.cond_norm(over)))))
    if n in ("div_ceil",):
        x, y = ints()
        if not y.is_const() or y.c <= 0:
            return False
        return c.ret(VInt(w, a.signed, st.divmod(x + (y.c - 1), y.c)[0]))
    if n in ("next_multiple_of",):
        x, y = ints()
        if not y.is_const() or y.c <= 0:
            return False
        return c.ret(VInt(w, a.signed, st.divmod(x + (y.c - 1), y.c)[0] * y.c))
    if n in ("div_euclid", "rem_euclid") and not a.signed:
        return c.ret(eng.binop(st, c.fr, "Div" if n[0] == "d" else "Rem", a, b, None))
    if n in ("is_multiple_of",):
        x, y = ints()
        if not y.is_const() or y.c <= 0:
            return False
        r = st.divmod(x, y.c)[1]
        return c.ret(VBool(st.cond_norm(c_and(("lin", r), ("lin", -r)))))
    if n in ("checked_shl", "checked_shr"):
        s = eng.num(st, b)
        if not st.decide(L(w - 1) - s):
            return c.ret(NONE)
        return c.ret(some(eng.binop(st, c.fr, "Shl" if n.endswith("shl") else "Shr", a, b, None)))
    if n in ("wrapping_shl", "wrapping_shr", "unbounded_shl", "unbounded_shr"):
        if n[0] == "u":
            s = eng.num(st, b)
            if not st.decide(L(w - 1) - s):
                return c.ret(VInt(w, a.signed, ZERO))
        return c.ret(eng.binop(st, c.fr, "Shl" if n.endswith("shl") else "Shr", a, b, None))
    if n in ("overflowing_shl", "overflowing_shr"):
        return False
    if n == "is_power_of_two":
        if isinstance(a.rep, Lin) and a.rep.is_const():
            return c.ret(VBool(("c", a.rep.c > 0 and a.rep.c & (a.rep.c - 1) == 0)))
        return c.ret(VBool(("data", "is_pow2", a)))
    if n in ("pow", "wrapping_pow", "checked_pow", "saturating_pow"):
        if isinstance(a.rep, Lin) and a.rep == L(2):
            s = eng.num(st, b)
            r = VInt(w, a.signed, st.pow2(s))
            if n == "checked_pow":
                return c.ret(some(r) if st.decide(L(w - 1) - s) else NONE)
            return c.ret(r)
        return False
    if n in ("leading_zeros", "trailing_zeros", "count_ones", "count_zeros", "leading_ones", "trailing_ones", "ilog2", "checked_ilog2"):
        if isinstance(a.rep, Lin) and a.rep.is_const():
            v = a.rep.c & ((1 << w) - 1)
            r = {"leading_zeros": w - v.bit_length(), "count_ones": bin(v).count("1"),
                 "trailing_zeros": w if v == 0 else (v & -v).bit_length() - 1,
                 "count_zeros": w - bin(v).count("1"), "ilog2": v.bit_length() - 1}.get(n)
            if r is not None:
                return c.ret(VInt(32, False, L(r)))
        x = a.rep if isinstance(a.rep, Lin) else st.norm_bits(a.rep)
        if n in ("leading_zeros", "trailing_zeros", "ilog2", "checked_ilog2") and not a.signed:
            r = extreme_bit(c, n, w, x)
            if r is not None:
                return c.ret(r)
        return c.ret(VInt(32, False, st.term_atom((n, w, x), False, 0, w, name=n)))
    if n in ("swap_bytes", "reverse_bits", "to_be", "rotate_left", "rotate_right"):
        return c.ret(VInt(w, a.signed, eng.opaque_bits(st, w, (n, a, b))))
    if n in ("to_le", "cast_signed", "cast_unsigned"):
        if n == "to_le":
            return c.ret(a)
        return c.ret(eng.cast(st, c.fr, a, "IntToInt", {"k": "int", "bits": w, "signed": n == "cast_signed"}))
    if n in ("to_le_bytes", "to_ne_bytes", "to_be_bytes"):
        bits = eng.word(st, a, w)
        parts = [VInt(8, False, b_resize(st, b_shr(st, bits, 8 * i), 8)) for i in range(w // 8)]
        if n == "to_be_bytes":
            parts = parts[::-1]
        return c.ret(make_array(eng, st, {"k": "array"}, parts))
    if n in ("from_le_bytes", "from_ne_bytes", "from_be_bytes"):
        return False
    if n in ("abs_diff",):
        x, y = ints()
        return c.ret(VInt(w, False, st.norm(x - y) if st.decide(x - y) else st.norm(y - x)))
    if n in ("unsigned_abs", "wrapping_abs", "abs", "signum", "is_negative", "is_positive", "checked_neg"):
        if a.signed:
            neg = st.decide_cond(eng.compare(st, "Lt", a, VInt(w, True, ZERO)))
            if n == "is_negative":
                return c.ret(VBool(("c", neg)))
            if n in ("unsigned_abs", "abs", "wrapping_abs"):
                if not neg:
                    return c.ret(VInt(w, n != "unsigned_abs", a.rep))
                return c.ret(VInt(w, n != "unsigned_abs", eng.opaque_bits(st, w, ("absneg", a))))
        return False
    return False


def extreme_bit(c, n, w, x):
    """position of the highest or lowest set bit, with the facts about the bits beyond it"""
    st = c.st
    b = x if isinstance(x, Bits) else Bits(w, [(ZERO, L(w), ident(("num", x)))])
    live = [t for t in b.segs if t[2] != 0]
    if not live:
        if n == "ilog2":
            return None
        return NONE if n == "checked_ilog2" else VInt(32, False, L(w))
    if len(live) != 1 or live[0][2] in (1, TOPBIT):
        return None
    l, h, s = live[0]
    if st.decide_cond(st.rz_norm(s, l, h)):
        if n == "ilog2":
            return None
        return NONE if n == "checked_ilog2" else VInt(32, False, L(w))
    low = n == "trailing_zeros"
    z = st.term_atom(("trailing_zeros" if low else "leading_zeros", w, x), False, 0, w, name="trailing_zeros" if low else "leading_zeros")
    i = z if low else L(w - 1) - z
    st.add(i - l)
    st.add(h - 1 - i)
    st.add_fact(st.rz_norm(s, l, i) if low else st.rz_norm(s, i + 1, h), True)
    st.add_fact(st.rz_norm(s, i, i + 1), False)
    if n in ("leading_zeros", "trailing_zeros"):
        return VInt(32, False, z)
    return some(VInt(32, False, i)) if n == "checked_ilog2" else VInt(32, False, i)


@model_rx(r"^core::num::<impl (u8|u16|u32|u64|u128|usize)>::from_(le|ne|be)_bytes$")
def _(c):
    sl = c.sl(0)
    eng, st = c.eng, c.st
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}[re.search(r"impl (\w+)", c.path).group(1)]
    if c.name == "from_be_bytes":
        ws = [st.read_word(sl.rid, st.norm(sl.start + i)) for i in range(n)]
        r = Bits(8 * n, [(ZERO, L(8 * n), 0)])
        for i, x in enumerate(ws[::-1]):
            r = b_op(st, lambda p, q: p | q, r, b_shl(st, b_resize(st, x, 8 * n), L(8 * i)))
        return c.ret(VInt(8 * n, False, r))
    segs = st.read_flat(sl.rid, sl.start * 8, (sl.start + n) * 8)
    d = sl.start * 8
    return c.ret(VInt(8 * n, False, seg_norm(st, 8 * n, [(l - d, h - d, f_shift(s, -d)) for l, h, s in segs])))


def parse_int(c):
    """uN::from_str_radix: an uninterpreted parse of the text"""
    m = re.search(r"impl (\w)(\w+)>", c.rpath if "impl" in c.rpath else c.path)
    w = 64 if m.group(2) == "size" else int(m.group(2))
    sl = c.sl(0)
    radix = c.num(1)
    n = c.st.norm(sl.len)
    if n.is_const() and n.c <= 256 and radix.is_const():
        cs = [c.st.read_word(sl.rid, c.st.norm(sl.start + i)) for i in range(n.c)]
        t = [stdmore.constval(VInt(8, False, x)) for x in cs]
        if None not in t:
            return parse_text(c, bytes(t), radix.c, w, m.group(1) == "i")
        if radix.c in (2, 10, 16):
            ds = [digit_word(x, k, radix.c) for x, k in zip(cs, t)]
            if ds[0] is None and (t[0] == 43 or t[0] == 45 and m.group(1) == "i") and len(ds) > 1:
                neg, ds = t[0] == 45, ds[1:]
            else:
                neg = False
            if not neg and None not in ds:
                return parse_digits(c, ds, radix.c, w, m.group(1) == "i")
            if any(x is not None and digit_word(None, x, radix.c) is None for x in t[1 if t[0] in (43, 45) else 0:]):
                return parse_text(c, b"?", radix.c, w, False)
    key = (sl.start, sl.len, sl.rid, radix, w)
    okc = ("data", "parses") + key
    if c.st.decide_cond(okc):
        x = c.st.term_atom(("parsed",) + key, True, 0, (1 << w) - 1, name="parsed")
        return c.ret(ok(VInt(w, False, x)))
    return c.ret(err(VSym(("parse_error",) + key)))


def digit_word(x, k, radix):
    """the value of a digit character: Bits of 4, or None when it is not known to be a digit below the radix"""
    if k is not None:
        d = int(chr(k), 36) if k < 128 and chr(k).isalnum() else 99
        return Bits(4, [(L(i), L(i + 1), (d >> i) & 1) for i in range(4)]) if d < radix else None
    v = [seg_bit(x, b) for b in range(8)]
    if v[4:] != [1, 1, 0, 0]:
        return None
    if v[3] != 0 or radix == 2 and (v[1] != 0 or v[2] != 0):
        return None
    return Bits(4, [(L(i), L(i + 1), v[i]) for i in range(4)])


def seg_bit(x, b):
    for l, h, s in x.segs:
        if l.is_const() and h.is_const() and l.c <= b < h.c:
            return s
    return None


def parse_digits(c, ds, radix, w, signed):
    """a text of digits, some of them free"""
    st = c.st
    top = w - (1 if signed else 0)

    def over():
        return c.ret(err(VAdt("core::num::error::ParseIntError", 0, (VAdt("core::num::error::IntErrorKind", 2, ()),))))
    if radix == 10:
        v = ZERO
        for d in ds:
            v = v * 10 + st.num(Bits(64, list(d.segs) + [(L(4), L(64), 0)]))
        v = st.norm(v)
        if not st.decide(L((1 << top) - 1) - v):
            return over()
        return c.ret(ok(VInt(w, signed, v)))
    k = {2: 1, 16: 4}[radix]
    segs = []
    for i, d in enumerate(reversed(ds)):
        for b in range(k):
            s = d.segs[b][2]
            p = k * i + b
            s = s if s in (0, 1) else f_shift(s, L(k * i))
            if p >= top:
                if s == 1 or s != 0 and not st.decide_cond(st.rz_norm(s, L(p), L(p + 1))):
                    return over()
            else:
                segs.append((L(p), L(p + 1), s))
    if k * len(ds) < w:
        segs.append((L(min(k * len(ds), top)), L(w), 0))
    elif top < w:
        segs.append((L(top), L(w), 0))
    return c.ret(ok(VInt(w, signed, seg_norm(st, w, segs))))


def parse_text(c, t, radix, w, signed):
    """the documented result on a known text"""
    kinds = {"Empty": 0, "InvalidDigit": 1, "PosOverflow": 2, "NegOverflow": 3}

    def bad(k):
        return c.ret(err(VAdt("core::num::error::ParseIntError", 0, (VAdt("core::num::error::IntErrorKind", kinds[k], ()),))))
    if not t:
        return bad("Empty")
    neg, d = False, t
    if t[:1] == b"+" or (signed and t[:1] == b"-"):
        neg, d = t[:1] == b"-", t[1:]
    digits = [int(chr(x), 36) if x < 128 and chr(x).isalnum() else 99 for x in d]
    if not d or any(x >= radix for x in digits):
        return bad("InvalidDigit")
    x = 0
    for y in digits:
        x = x * radix + y
    x = -x if neg else x
    if x > (1 << (w - signed)) - 1:
        return bad("PosOverflow")
    if x < (-(1 << (w - 1)) if signed else 0):
        return bad("NegOverflow")
    return c.ret(ok(VInt(w, signed, L(x))))


@model_rx(r"^core::str::<impl str>::parse$")
def _(c):
    t = c.ty_arg(0)
    if t is None or t["k"] != "int":
        return False
    c.rpath = c.path = "core::num::<impl %s%d>::from_str_radix" % ("i" if t["signed"] else "u", t["bits"])
    c.args = [c.args[0], usize(L(10))]
    return parse_int(c)


@model("core::num::error::ParseIntError::kind")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VSym):
        pos = c.st.decide_cond(("data", "overflows", v.term))
        key = ("tmp", c.st.W.fresh())
        c.st.mem[key] = VAdt("core::num::error::IntErrorKind", 2 if pos else 1, ())
        return c.ret(VRef(key))
    return False


@model("core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max")
def _(c):
    a, b = deref(c.eng, c.st, c.args[0]), deref(c.eng, c.st, c.args[1])
    if not isinstance(a, VInt):
        return False
    lt = c.st.decide_cond(c.eng.compare(c.st, "Lt", b, a))      # b < a
    if c.name == "min":
        return c.ret(b if lt else a)
    return c.ret(a if lt else b)


@model_rx(r"^core::intrinsics::(\w+)$")
def _(c):
    n = c.name
    eng, st = c.eng, c.st
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
        r = eng.binop(st, c.fr, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n.rsplit("_", 1)[1]], c.args[0], c.args[1], None)
        return c.ret(r)
    if n in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
        return c.ret(eng.binop(st, c.fr, {"add": "Add", "sub": "Sub", "mul": "Mul"}[n[:3]] + "WithOverflow", c.args[0], c.args[1], None))
    if n in ("likely", "unlikely"):
        return c.ret(c.args[0])
    if n == "cold_path":
        return c.ret(UNIT)
    if n == "assert_inhabited":
        return c.ret(UNIT)
    return False


@model_rx(r"^core::(char::convert::|char::methods::<impl char>::|char::)from_digit$")
def _(c):
    v = c.eng.force(c.st, c.args[0])
    radix = c.num(1)
    if not radix.is_const():
        return c.ret(NONE)
    if not c.st.decide_cond(c.eng.compare(c.st, "Lt", v, VInt(32, False, radix))):
        return c.ret(NONE)
    e = v.rep if isinstance(v.rep, Lin) else L(v.rep.const()) if v.rep.const() is not None else Lin(((0, 1),))
    if e.is_const():
        return c.ret(some(VInt(32, False, L(ord("0123456789abcdefghijklmnopqrstuvwxyz"[e.c])))))
    b = c.eng.word(c.st, v, 32)
    # the character is a function of the digit's bits
    return c.ret(some(VInt(32, False, seg_norm(c.st, 32, [(ZERO, L(7), ident(("mem", ("digitchar", b)))), (L(7), L(32), 0)]))))


# ------------------------------------------------------------------ text
@model_rx(r"^core::str::<impl str>::(strip_prefix|starts_with)$")
def _(c):
    sl = c.sl(0)
    pat = c.eng.force(c.st, c.args[1])
    if isinstance(pat, VInt) and isinstance(pat.rep, Lin) and pat.rep.is_const() and pat.rep.c < 128:
        bs = [pat.rep.c]
    elif isinstance(pat, VStr):
        bs = list(pat.b)
    else:
        return False
    hit = c.st.decide(sl.len - len(bs))
    if hit:
        for i, ch in enumerate(bs):
            v = c.eng.load(c.st, ("elem", sl.rid, c.st.norm(sl.start + i), ()))
            if not c.st.decide_cond(c.eng.compare(c.st, "Eq", v, VInt(8, False, L(ch)))):
                hit = False
                break
    if c.name == "starts_with":
        return c.ret(VBool(("c", hit)))
    if not hit:
        return c.ret(NONE)
    return c.ret(some(VSlice(sl.rid, c.st.norm(sl.start + len(bs)), c.st.norm(sl.len - len(bs)))))


@model_rx(r"^core::str::<impl str>::(bytes)$")
def _(c):
    return c.ret(VIter(ClonedSeq(SliceSeq(c.sl(0))), ZERO))


@model_rx(r"^core::str::<impl str>::(chars)$")
def _(c):
    s = c.sl(0)
    return c.ret(VIter(CharSeq(s), ZERO))


@dataclass(frozen=True)
class CharSeq(Seq):
    sl: object

    def map(self, fn):
        return CharSeq(map_value(self.sl, fn))

    def length(self, st):
        return st.norm(self.sl.len)

    def item(self, eng, st, i):
        v = eng.load(st, ("elem", self.sl.rid, st.norm(self.sl.start + i), ()))
        return VInt(32, False, eng.word(st, v, 32))


# ------------------------------------------------------------------ iterators
@model("core::iter::traits::collect::IntoIterator::into_iter")
def _(c):
    if c.o.get("inst") and c.o["inst"] in c.eng.P.bodies and not c.rpath.startswith("<I as"):
        return False
    return c.ret(as_iter(c.eng, c.st, c.args[0]))


IT = "core::iter::traits::iterator::Iterator::"


NEXT = {"$Map": "map_next", "$Filter": "filter_next", "$TakeWhile": "take_while_next", "$SkipWhile": "skip_while_next",
        "$Zip": "zip_next", "$Chain": "chain_next", "$Enumerate": "enumerate_next", "$Take": "take_next", "$Skip": "skip_next",
        "$Cloned": "cloned_next", "$FilterMap": "filter_map_next", "$Inspect": "inspect_next", "$Scan": "scan_next"}


def next_of(c, p, v):
    eng, st = c.eng, c.st
    pos = st.norm(v.pos)
    if not v.seq.has(st, pos):
        return c.ret(NONE)
    x = v.seq.item(eng, st, pos)
    eng.store(st, p, VIter(v.seq, st.norm(pos + 1)))
    return c.ret(some(x))


@model(IT + "next")
def _(c):
    eng, st = c.eng, c.st
    p, v = loc(eng, st, c.args[0])
    if isinstance(v, VIter):
        return next_of(c, p, v)
    if isinstance(v, (VVec, VSlice)):         # a list standing for an iterator
        v = as_iter(eng, st, v)
        eng.store(st, p, v)
        return next_of(c, p, v)
    if isinstance(v, VAdt):
        if v.path.endswith("range::Range"):
            a = eng.force(st, v.fields[0])
            lo, hi = eng.num(st, a), eng.num(st, v.fields[1])
            if not st.decide(hi - lo - 1):
                return c.ret(NONE)
            eng.store(st, p, VAdt(v.path, 0, (VInt(a.w, a.signed, lo + 1), v.fields[1])))
            return c.ret(some(a))
        if v.path.startswith("$"):
            def r(i):
                return VRef(p[1], tuple(p[2]) + (i,)) if p[0] == "mem" else VElem(p[1], p[2], tuple(p[3]) + (i,))
            return c.shim(NEXT[v.path], [r(i) for i in range(stdmore.NARGS.get(v.path, len(v.fields)))])
    return False


@model("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    if isinstance(v, (VVec, VSlice)) or isinstance(v, VAdt) and v.path.endswith("range::Range"):
        v = as_iter(c.eng, c.st, v)
    if isinstance(v, VAdt) and v.path in stdmore.BACK:
        return c.shim(stdmore.BACK[v.path], [stdmore.field(p, i) for i in range(len(v.fields))])
    if not isinstance(v, VIter):
        return False
    n = v.seq.length(c.st)
    pos = c.st.norm(v.pos)
    if not c.st.decide(n - pos - 1):
        return c.ret(NONE)
    x = v.seq.item(c.eng, c.st, c.st.norm(n - 1))
    c.eng.store(c.st, p, VIter(TakeSeq(v.seq, c.st.norm(n - 1)), pos))
    return c.ret(some(x))


@model(IT + "rev")
def _(c):
    it = as_iter(c.eng, c.st, c.args[0])
    if isinstance(it, VAdt) and it.path in ("$Map", "$Filter", "$FilterMap", "$Inspect"):
        inner = it.fields[0]
        if isinstance(inner, VIter):
            return c.ret(VAdt(it.path, 0, (VIter(RevSeq(seq_at(c.st, inner)), ZERO),) + tuple(it.fields[1:])))
    if lazy(it):
        return c.ret(VAdt("$Rev", 0, (it,)))
    return c.ret(VIter(RevSeq(seq_at(c.st, it)), ZERO))


def lazy(v):
    return isinstance(v, (VRef, VElem)) or isinstance(v, VAdt)


@model(IT + "skip")
def _(c):
    n = c.num(1)
    it = as_iter(c.eng, c.st, c.args[0])
    if lazy(it):
        return c.ret(VAdt("$Skip", 0, (it, usize(n))))
    return c.ret(VIter(SkipSeq(seq_at(c.st, it), n), ZERO))


@model(IT + "take")
def _(c):
    n = c.num(1)
    it = as_iter(c.eng, c.st, c.args[0])
    if lazy(it):
        return c.ret(VAdt("$Take", 0, (it, usize(n))))
    return c.ret(VIter(TakeSeq(seq_at(c.st, it), n), ZERO))


@model(IT + "step_by")
def _(c):
    n = c.num(1)
    if lazy(as_iter(c.eng, c.st, c.args[0])):
        return c.ret(VAdt("$Step", 0, (as_iter(c.eng, c.st, c.args[0]), usize(n), VBool(TRUE))))
    if not n.is_const() or n.c < 1:
        return False
    return c.ret(VIter(StepSeq(seq_at(c.st, as_iter(c.eng, c.st, c.args[0])), n.c), ZERO))


@model(IT + "zip", "core::iter::adapters::zip::zip")
def _(c):
    a, b = as_iter(c.eng, c.st, c.args[0]), as_iter(c.eng, c.st, c.args[1])
    if lazy(a) or lazy(b):
        return c.ret(VAdt("$Zip", 0, (a, b)))
    return c.ret(VIter(ZipSeq(seq_at(c.st, a), seq_at(c.st, b)), ZERO))


@model(IT + "chain")
def _(c):
    a, b = as_iter(c.eng, c.st, c.args[0]), as_iter(c.eng, c.st, c.args[1])
    if lazy(a) or lazy(b):
        return c.ret(VAdt("$Chain", 0, (a, b, VBool(FALSE))))
    return c.ret(VIter(ChainSeq(seq_at(c.st, a), seq_at(c.st, b)), ZERO))


@model(IT + "enumerate")
def _(c):
    v = as_iter(c.eng, c.st, c.args[0])
    if lazy(v):
        return c.ret(VAdt("$Enumerate", 0, (v, usize(ZERO))))
    return c.ret(VIter(EnumSeq(seq_at(c.st, v)), ZERO))


@model(IT + "cloned", IT + "copied")
def _(c):
    v = as_iter(c.eng, c.st, c.args[0])
    if lazy(v):
        return c.ret(VAdt("$Cloned", 0, (v,)))
    return c.ret(VIter(ClonedSeq(seq_at(c.st, v)), ZERO))


@model(IT + "by_ref")
def _(c):
    return c.ret(c.args[0])


@model(IT + "map")
def _(c):
    return c.ret(VAdt("$Map", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])))


@model(IT + "filter")
def _(c):
    return c.ret(VAdt("$Filter", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])))


@model(IT + "filter_map")
def _(c):
    return c.ret(VAdt("$FilterMap", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])))


@model(IT + "inspect")
def _(c):
    return c.ret(VAdt("$Inspect", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])))


@model(IT + "scan")
def _(c):
    return c.ret(VAdt("$Scan", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1], c.args[2])))


@model(IT + "take_while")
def _(c):
    return c.ret(VAdt("$TakeWhile", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1], VBool(FALSE))))


@model(IT + "skip_while")
def _(c):
    return c.ret(VAdt("$SkipWhile", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1], VBool(FALSE))))


@model("core::iter::sources::repeat::repeat")
def _(c):
    return c.ret(VIter(RepeatSeq(c.args[0]), ZERO))


@model("core::iter::sources::repeat_n::repeat_n")
def _(c):
    return c.ret(VIter(TakeSeq(RepeatSeq(c.args[0]), c.num(1)), ZERO))


@model("core::iter::sources::once::once")
def _(c):
    return c.ret(VIter(OnceSeq((c.args[0],)), ZERO))


@model("core::iter::sources::empty::empty")
def _(c):
    return c.ret(VIter(OnceSeq(()), ZERO))


@model(IT + "count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    it = as_iter(c.eng, c.st, v)
    if isinstance(it, VIter):
        n = it.seq.length(c.st)
        return c.ret(usize(c.st.norm(n - it.pos)))
    return c.shim("count", [it])


@model(IT + "last")
def _(c):
    it = as_iter(c.eng, c.st, c.args[0])
    if isinstance(it, VIter):
        n = it.seq.length(c.st)
        if not c.st.decide(n - it.pos - 1):
            return c.ret(NONE)
        return c.ret(some(it.seq.item(c.eng, c.st, c.st.norm(n - 1))))
    return c.shim("last", [it])


@model(IT + "nth")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    if isinstance(v, VIter):
        i = c.st.norm(v.pos + c.num(1))
        if not v.seq.has(c.st, i):
            c.eng.store(c.st, p, VIter(OnceSeq(()), ZERO))
            return c.ret(NONE)
        x = v.seq.item(c.eng, c.st, i)
        c.eng.store(c.st, p, VIter(v.seq, c.st.norm(i + 1)))
        return c.ret(some(x))
    return c.shim("nth", c.args)


def room(st, lo, hi):
    """lo < hi, for lo <= hi; what that says about the bits of a word is kept too"""
    r = st.eq0(hi - lo)
    if r is None:
        for a, b in ((hi, lo), (lo, hi)):
            # one of the ends is a word plus a constant, the other a constant
            if b.is_const() and len(a.t) == 1 and a.t[0][1] == 1 and lin.atom(a.t[0][0]).kind == "val":
                x = lin.atom(a.t[0][0]).info
                if 0 <= b.c - a.c < 1 << x.w:
                    same = st.decide_cond(st.cond_norm(st.eq_cond(st.norm_bits(x), bconst(x.w, b.c - a.c))))
                    st.add(hi - lo - (0 if same else 1))
                    if same:
                        st.add(lo - hi)
                    return not same
    return st.decide(hi - lo - 1)


def written_groups(c, it):
    """a long table of which only a few elements were written: the written elements in order, and one arbitrary element
    for every run of unwritten ones (the extreme of a whole is the extreme of the extremes of its parts)"""
    eng, st = c.eng, c.st
    if not isinstance(it, VIter) or it.seq.infinite:
        return it
    n = it.seq.length(st)
    if not n.is_const() or n.c < 32 or it.pos != ZERO:
        return it
    s = it.seq
    while not isinstance(s, SliceSeq):
        s = getattr(s, "s", None)
        if s is None:
            return it
    if not isinstance(it.seq, (EnumSeq, SliceSeq, ClonedSeq)):
        return it
    r = st.regions[s.sl.rid]
    if r.eb is None or not r.base or r.base[0] != "const":
        return it
    at = []
    for w in r.writes:
        if w[0] != "flat":
            return it
        q = st.norm(w[1] - s.sl.start * r.eb)
        z = st.norm(w[2] - w[1])
        if any(k % r.eb for _, k in q.t) or not z.is_const() or q.c % r.eb + z.c > r.eb:
            return it
        e = Lin(tuple((a, k // r.eb) for a, k in q.t), q.c // r.eb)
        if not any(st.decide_eq(e - x) for x in at):
            at.append(e)
    if len(at) > 6:
        return it
    out = []
    for e in at:
        k = 0
        while k < len(out) and st.decide(e - out[k]):
            k += 1
        out.insert(k, e)
    items, lo = [], ZERO
    for e in out + [n]:
        if room(st, lo, e):
            g = lin.new_atom("gap", 0, n.c)
            st.add(g - lo)
            st.add(e - 1 - g)
            v = it.seq.item(eng, st, Lin(((g.t[0][0], 1),)))
            if isinstance(it.seq, EnumSeq):
                # which one of them is not known
                v = VTup((VInt(64, False, Bits(64, [(ZERO, L(8), ident(("mem", ("unwritten", len(items))))), (L(8), L(64), 0)])),) + v.items[1:])
            items.append(v)
        if e is not n:
            items.append(it.seq.item(eng, st, e))
        lo = e + 1
    return VIter(OnceSeq(tuple(items)), ZERO)


@model(IT + "max_by_key", IT + "min_by_key")
def _(c):
    return c.shim(c.name, [written_groups(c, as_iter(c.eng, c.st, c.args[0]))] + c.args[1:])


@model(IT + "for_each", IT + "fold")
def _(c):
    return c.shim(c.name, [as_iter(c.eng, c.st, c.args[0])] + c.args[1:])


@model(IT + "max_by", IT + "min_by", IT + "max", IT + "min")
def _(c):
    n = c.name + ("" if c.name.endswith("_by") else "_iter")
    return c.shim(n, [as_iter(c.eng, c.st, c.args[0])] + c.args[1:])


LESS, EQUAL, GREATER = (VAdt(ORD, i, ()) for i in range(3))


def ordering(c, a, b):
    """order of two values; ("call", key, a, b) where a crate type decides"""
    eng, st = c.eng, c.st
    ra, rb = a, b
    a, b = deref(eng, st, a), deref(eng, st, b)
    if isinstance(a, VInt) and isinstance(b, VInt):
        if st.decide_cond(eng.compare(st, "Lt", a, b)):
            return LESS
        return EQUAL if st.decide_cond(eng.compare(st, "Eq", a, b)) else GREATER
    if isinstance(a, VBool) and isinstance(b, VBool):
        x, y = st.decide_cond(a.c), st.decide_cond(b.c)
        return EQUAL if x == y else LESS if y else GREATER
    if isinstance(a, VTup) and isinstance(b, VTup):
        r = EQUAL
        for x, y in zip(a.items, b.items):
            if isinstance(r, tuple):
                raise Unsupported("tuple order")
            if r is EQUAL:
                r = ordering(c, x, y)
        return r
    if isinstance(a, VAdt) and a.path == ORD and isinstance(b, VAdt):
        return EQUAL if a.variant == b.variant else LESS if a.variant < b.variant else GREATER
    if isinstance(a, VAdt) and isinstance(b, VAdt) and a.path == b.path and a.path in (OPT, RES):
        if a.variant != b.variant:
            return LESS if a.variant < b.variant else GREATER
        return ordering(c, a.fields[0], b.fields[0]) if a.fields else EQUAL
    if isinstance(a, VAdt):
        key = eng.P.dispatch.get(("core::cmp::Ord", "cmp", a.path))
        if key is not None:
            return ("call", key, box(st, ra), box(st, rb))
    raise Unsupported("order of %s" % type(a).__name__)


@model_rx(r"^<core::cmp::Ordering as core::cmp::PartialEq>::(eq|ne)$", r"^core::cmp::Ordering::is_(lt|le|gt|ge|eq|ne)$")
def _(c):
    a = deref(c.eng, c.st, c.args[0])
    if not isinstance(a, VAdt):
        return False
    if len(c.args) == 2:
        b = deref(c.eng, c.st, c.args[1])
        if not isinstance(b, VAdt):
            return False
        return c.ret(VBool(("c", (a.variant == b.variant) == (c.name == "eq"))))
    return c.ret(VBool(("c", a.variant in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2), "eq": (1,), "ne": (0, 2)}[c.name[3:]])))


def box(st, v):
    """a reference to the value"""
    if isinstance(v, (VRef, VElem)):
        return v
    k = ("cell", st.W.fresh())
    st.mem[k] = v
    return VRef(k)


@model_rx(r"^core::cmp::(Partial)?Ord::(cmp|partial_cmp|lt|le|gt|ge|max|min)$",
          r"^core::tuple::<impl core::cmp::(Partial)?Ord for \(.*\)>::(cmp|partial_cmp|lt|le|gt|ge)$",
          r"^<core::option::Option<T> as core::cmp::(Partial)?Ord>::(cmp|partial_cmp|lt|le|gt|ge)$",
          r"^core::cmp::impls::<impl core::cmp::(Partial)?Ord.* for &.*>::(cmp|partial_cmp|lt|le|gt|ge)$")
def _(c):
    n = c.name
    x = deref(c.eng, c.st, c.args[0])
    if isinstance(x, (VVec, VSlice)) and n in ("cmp", "partial_cmp", "lt", "le", "gt", "ge"):
        x, y = c.sl(0), c.sl(1)
        if c.st.regions[x.rid].eb != c.st.regions[y.rid].eb or c.st.regions[x.rid].eb is None or c.st.regions[x.rid].eb not in (8, 64):
            raise Unsupported("order of slices")
        return c.shim(("words_" if c.st.regions[x.rid].eb == 64 else "bytes_") + n, [x, y])
    r = ordering(c, c.args[0], c.args[1])
    if isinstance(r, tuple):
        a, b = (deref_to(c.eng, c.st, x) for x in r[2:])
        if n == "cmp":
            c.eng.push(c.st, r[1], [a, b], c.dest, c.target, c.sp)
            return True
        if n in ("lt", "le", "gt", "ge"):
            return c.shim("po_" + n, [a, b])
        if n == "partial_cmp":
            k = c.eng.P.dispatch.get(("core::cmp::PartialOrd", "partial_cmp", deref(c.eng, c.st, a).path))
            if k:
                c.eng.push(c.st, k, [a, b], c.dest, c.target, c.sp)
                return True
        raise Unsupported("%s of crate values" % n)
    if n == "cmp":
        return c.ret(r)
    if n == "partial_cmp":
        return c.ret(some(r))
    if n in ("max", "min"):
        return c.ret(c.args[0] if (r is GREATER) == (n == "max") and r is not EQUAL else c.args[1] if n == "max" or r is GREATER else c.args[0])
    return c.ret(VBool(("c", {"lt": r is LESS, "le": r is not GREATER, "gt": r is GREATER, "ge": r is not LESS}[n])))


def deref_to(eng, st, v):
    """the innermost reference"""
    while isinstance(v, (VRef, VElem)):
        x = eng.load(st, place_of(v))
        if not isinstance(x, (VRef, VElem)):
            return v
        v = x
    return v



@model(IT + "any", IT + "all", IT + "find", IT + "find_map", IT + "position")
def _(c):
    return c.shim(c.name, c.args)


@model("core::iter::traits::iterator::Iterator::rposition")
def _(c):
    return c.shim("rposition", c.args)


@model("core::iter::traits::double_ended::DoubleEndedIterator::rfind")
def _(c):
    return c.shim("rfind", c.args)


@model("core::iter::traits::double_ended::DoubleEndedIterator::rfold")
def _(c):
    return c.shim("rfold", [as_iter(c.eng, c.st, c.args[0])] + c.args[1:])


@model(IT + "eq", IT + "ne")
def _(c):
    a, b = as_iter(c.eng, c.st, c.args[0]), as_iter(c.eng, c.st, c.args[1])
    return c.shim({"eq": "eq_iter", "ne": "ne_iter"}[c.name], [a, b])


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(c):
    it = as_iter(c.eng, c.st, c.args[0])
    # only sequences collected into Vec / SmallVec / String
    t = None
    for i in (0, 1, 2):
        x = c.ty_arg(i)
        if x and x["k"] == "adt" and re.search(r"(vec::Vec|SmallVec|string::String|Box)$", x["path"]):
            t = x
    b = c.ty_arg(1) if c.name == "collect" else None
    if b and b["k"] == "adt" and b["path"] in (OPT, RES):
        return c.shim("collect_opt" if b["path"] == OPT else "collect_res", [it])
    if b and b["k"] == "adt" and b["path"].endswith("HashMap"):
        return c.shim("collect_map", [it])
    if b and b["k"] == "adt":
        t = b if re.search(r"(vec::Vec|SmallVec|string::String|Box)$", b["path"]) else None
        if b["path"].endswith("string::String"):
            return c.shim("collect_string", [it])
    if t is None and "alloc::vec::Vec" not in c.rpath and "SmallVec" not in c.rpath:
        return False
    if isinstance(it, VIter) and isinstance(it.seq, ClonedSeq) and isinstance(it.seq.s, SliceSeq) and it.pos == ZERO:
        return c.ret(copy_slice(c.eng, c.st, it.seq.s.sl))
    return c.shim("collect_vec", [it])


@model("core::iter::traits::collect::Extend::extend")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    if isinstance(v, VMap):
        return c.shim("extend_map", [c.args[0], as_iter(c.eng, c.st, c.args[1])])
    if not isinstance(v, VVec):
        return False
    it = as_iter(c.eng, c.st, c.args[1])
    if v.kind == "string":
        return c.shim("extend_string", [c.args[0], it])
    if isinstance(it, VIter) and it.pos == ZERO:
        s = it.seq.s if isinstance(it.seq, ClonedSeq) else it.seq
        if isinstance(s, SliceSeq):
            append(c.eng, c.st, v, s.sl)
            return c.ret(UNIT)
        if isinstance(s, TakeSeq) and isinstance(s.s, RepeatSeq):
            x = deref(c.eng, c.st, s.s.v)
            r = c.st.regions[v.rid]
            if r.eb is not None:
                n = c.st.norm(r.len)
                fill_words(c.st, v.rid, n, s.n, c.eng.word(c.st, x, r.eb))
                c.st.regions[v.rid] = c.st.regions[v.rid].repl(length=c.st.norm(n + s.n))
                return c.ret(UNIT)
    return c.shim("extend_vec", [c.args[0], it])


@model("core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call")
def _(c):
    f = c.args[0]
    x = f
    for _ in range(4):
        x = c.eng.force(c.st, x)
        if isinstance(x, VRef):
            y = c.eng.load(c.st, ("mem", x.key, x.path))
            if isinstance(y, (VRef, VElem)):
                x = y
                continue
            if isinstance(y, (VFn,)):
                x = y
            break
        break
    tup = c.eng.force(c.st, c.args[1])
    args = list(tup.items) if isinstance(tup, VTup) else [tup]
    c.eng.call_value(c.st, x, args, c.dest, c.target, c.sp)
    return True


# ------------------------------------------------------------------ values without regions
def freeze(eng, st, v):
    return snapshot_value(eng, st, v)


def snapshot_value(eng, st, v):
    """region-free description of a value"""
    v = eng.force(st, v)
    if isinstance(v, (VVec, VSlice)):
        s = slice_of(eng, st, v)
        if st.regions[s.rid].eb is None:
            return VTop("objects")
        return VSym(("words", st_snapshot(eng, st, s)))
    if isinstance(v, VAdt):
        return VAdt(v.path, v.variant, tuple(snapshot_value(eng, st, x) for x in v.fields))
    if isinstance(v, VTup):
        return VTup(tuple(snapshot_value(eng, st, x) for x in v.items))
    if isinstance(v, (VRef, VElem)):
        return snapshot_value(eng, st, deref(eng, st, v))
    return v


def thaw(eng, st, v):
    """value with fresh regions from a snapshot"""
    if isinstance(v, VSym) and v.term[0] == "words":
        eb, n, segs = v.term[1]
        rid = st.new_region(eb=eb, length=st.norm(n), base=("const", 0),
                            writes=tuple(("flat", st.norm(l), st.norm(h), s) for l, h, s in segs))
        return VVec(rid, "small")
    if isinstance(v, VAdt):
        return VAdt(v.path, v.variant, tuple(thaw(eng, st, x) for x in v.fields))
    if isinstance(v, VTup):
        return VTup(tuple(thaw(eng, st, x) for x in v.items))
    return v


# ------------------------------------------------------------------ num_bigint
BI = "$BigInt"
SIGN = "num_bigint::bigint::Sign"


@model_rx(r"^num_bigint::bigint::BigInt::(from_slice|new)$", r"^num_bigint::biguint::BigUint::(from_slice|new)$")
def _(c):
    big = "bigint::BigInt" in c.path
    sl = c.sl(1 if big else 0)
    v = copy_slice(c.eng, c.st, sl)
    return c.ret(VAdt(BI, 0, (c.args[0] if big else VAdt(SIGN, 2, ()), v)))


@model_rx(r"^num_bigint::bigint::convert::<impl core::convert::From<\w+> for num_bigint::bigint::BigInt>::from$")
def _(c):
    return c.ret(VSym(("bigint_const", c.args[0])))


@model_rx(r"^num_bigint::(bigint::BigInt|biguint::BigUint)::iter_u64_digits$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == BI):
        return False
    s = slice_of(c.eng, c.st, v.fields[1])
    if c.st.regions[s.rid].eb != 64:
        return False
    return c.ret(VIter(ClonedSeq(SliceSeq(s)), ZERO))


def big_parts(c, i=0):
    v = deref(c.eng, c.st, c.args[i])
    if not (isinstance(v, VAdt) and v.path == BI):
        return None, None
    s = slice_of(c.eng, c.st, v.fields[1])
    return (v, s) if c.st.regions[s.rid].eb == 64 else (None, None)


@model_rx(r"^num_bigint::(bigint::BigInt|biguint::BigUint)::(bits|bit|trailing_zeros|magnitude|to_u64_digits|into_parts|to_biguint|is_zero)$",
          r"^<num_bigint::(bigint::BigInt|biguint::BigUint) as num_traits::.*>::is_zero$")
def _(c):
    eng, st, n = c.eng, c.st, c.name
    v, s = big_parts(c)
    if v is None:
        return False
    signed = "bigint::BigInt" in c.path
    if n == "bits":
        return c.shim("big_bits", [s])
    if n == "bit" and not signed:
        return c.shim("big_bit", [s, c.args[1]])
    if n == "is_zero":
        return c.ret(VBool(("c", not st.decide(s.len - 1))))
    own = copy_slice(eng, st, s)
    mag = VAdt(BI, 0, (VAdt(SIGN, 2, ()), own))
    if n == "magnitude":
        k = ("tmp", st.W.fresh())
        st.mem[k] = mag
        return c.ret(VRef(k))
    if n == "to_u64_digits":
        return c.ret(VTup((v.fields[0], own)) if signed else own)
    if n == "into_parts":
        return c.ret(VTup((v.fields[0], mag)))
    if n == "to_biguint" and signed:
        return c.ret(NONE if v.fields[0].variant == 0 else some(mag))
    return False


@model_rx(r"^num_bigint::bigint::BigInt::from_biguint$", r"^num_bigint::bigint::convert::<impl core::convert::From<num_bigint::biguint::BigUint> for .*>::from$")
def _(c):
    sg = c.args[0] if len(c.args) == 2 else VAdt(SIGN, 2, ())
    v = deref(c.eng, c.st, c.args[-1])
    if not (isinstance(v, VAdt) and v.path == BI):
        return False
    return c.ret(VAdt(BI, 0, (c.eng.force(c.st, sg), v.fields[1])))


@model_rx(r"^<num_bigint::bigint::BigInt as core::ops::arith::Neg>::neg$", r"^<&num_bigint::bigint::BigInt as core::ops::arith::Neg>::neg$")
def _(c):
    v, s = big_parts(c)
    if v is None:
        return False
    return c.ret(VAdt(BI, 0, (VAdt(SIGN, 2 - v.fields[0].variant, ()), copy_slice(c.eng, c.st, s))))


@model_rx(r"^num_bigint::(bigint::BigInt|biguint::BigUint)::from_bytes_le$")
def _(c):
    s = c.sl(len(c.args) - 1)
    return c.ret(VAdt(BI, 0, (c.args[0] if len(c.args) == 2 else VAdt(SIGN, 2, ()), copy_slice(c.eng, c.st, s))))


@model_rx(r"^num_bigint::bigint::BigInt::sign$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == BI):
        return False
    return c.ret(v.fields[0])


@model_rx(r"^<?num_bigint::bigint::Sign as core::cmp::PartialEq>::(eq|ne)$")
def _(c):
    a, b = deref(c.eng, c.st, c.args[0]), deref(c.eng, c.st, c.args[1])
    if isinstance(a, VAdt) and isinstance(b, VAdt):
        return c.ret(VBool(("c", (a.variant == b.variant) == (c.name == "eq"))))
    return False


FRAC = "$Fraction"


@model_rx(r"^<(?:&)?fraction::fraction::GenericFraction<.*> as core::ops::arith::Neg>::neg$")
def _(c):
    """sign (2 plus, 0 minus), numerator, denominator"""
    v = deref(c.eng, c.st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == FRAC):
        return False
    return c.ret(VAdt(FRAC, 2 - v.variant, v.fields))


@model_rx(r"^fraction::fraction::GenericFraction::<T>::(new|new_neg|new_raw|new_raw_neg)$")
def _(c):
    a, b = (c.eng.force(c.st, x) for x in c.args)
    if not (isinstance(a, VInt) and isinstance(b, VInt)) or a.signed or b.signed:
        return False
    if not c.name.startswith("new_raw"):
        # a zero denominator is not a number
        if c.st.decide_cond(c.st.zero_cond(c.eng.word(c.st, b))):
            return c.ret(VAdt(FRAC, 1, (a, b)))
    return c.ret(VAdt(FRAC, 0 if c.name.endswith("neg") else 2, (a, b)))


@model_rx(r"^<fraction::fraction::GenericFraction<.*> as core::convert::From<.*>>::from$")
def _(c):
    a = c.eng.force(c.st, c.args[0])
    if not isinstance(a, VInt) or a.signed:
        return False
    return c.ret(VAdt(FRAC, 2, (a, VInt(64, False, L(1)))))


@model_rx(r"^fraction::", r"^<(?:&)?fraction::")
def _(c):
    return c.ret(VSym((c.name,) + tuple(snapshot_value(c.eng, c.st, a) for a in c.args)))


import maps  # noqa: E402
import stdmore  # noqa: E402
import fmt  # noqa: E402
import serde_model  # noqa: E402
