"""Further std API, mostly by reference loop forms (shim/shim.rs).  selftest/ checks all of these on closed programs."""
import re
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from seqs import *
import models as M
from models import (model, model_rx, some, ok, err, NONE, OPT, RES, ORD, usize, deref, loc, slice_of, as_iter, copy_slice, copy_into,
                    clone_value, make_array, rng, index, Panic, elem_eb, place_of, lazy, IT, NEXT)

SL = r"^core::slice::<impl \[T\]>::"
AL = r"^alloc::slice::<impl \[T\]>::"
VEC = r"^(alloc::vec::Vec::<T, A>|smallvec::SmallVec::<A>)::"


def sub(st, s, lo, n):
    return VSlice(s.rid, st.norm(s.start + lo), st.norm(L(n)))


# ------------------------------------------------------------------ slices
@model_rx(SL + r"(chunks_exact|chunks_exact_mut|as_chunks|as_chunks_mut)$")
def _(c):
    if c.name.startswith("as_chunks"):
        k = [a for a in c.o.get("consts") or [] if isinstance(a, int)]
        if not k:
            raise Unsupported("chunk length")
        n = L(k[0])
    else:
        n = c.num(1)
    if not n.is_const() or n.c <= 0:
        return False
    s = c.sl(0)
    q, r = c.st.divmod(s.len, n.c)
    whole, rest = sub(c.st, s, ZERO, q * n.c), sub(c.st, s, q * n.c, r)
    if c.name.startswith("as_chunks"):
        if not q.is_const():
            raise Unsupported("as_chunks of any length")
        parts = [sub(c.st, whole, L(i * n.c), n) for i in range(q.c)]
        return c.ret(VTup((slice_of(c.eng, c.st, make_array(c.eng, c.st, {"k": "array"}, parts)), rest)))
    return c.ret(VAdt("$ChunksExact", 0, (VIter(ChunkSeq(whole, n.c), ZERO), rest)))


@model_rx(r"^core::slice::iter::ChunksExact(Mut)?::<'a, T>::(remainder|into_remainder)$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == "$ChunksExact"):
        return False
    return c.ret(v.fields[1])


@dataclass(frozen=True)
class RChunkSeq(Seq):
    sl: object
    k: int

    def map(self, fn):
        return RChunkSeq(map_value(self.sl, fn), self.k)

    def length(self, st):
        return st.divmod(self.sl.len + self.k - 1, self.k)[0]

    def has(self, st, i):
        return st.decide(self.sl.len - L(i) * self.k - 1)

    def item(self, eng, st, i):
        rest = st.norm(self.sl.len - L(i) * self.k)
        n = L(self.k) if st.decide(rest - self.k) else rest
        return VSlice(self.sl.rid, st.norm(self.sl.start + rest - n), n)


@model_rx(SL + r"(rchunks|rchunks_mut)$")
def _(c):
    n = c.num(1)
    if not n.is_const() or n.c <= 0:
        return False
    return c.ret(VIter(RChunkSeq(c.sl(0), n.c), ZERO))


@model_rx(SL + r"(contains|reverse|fill_with|binary_search|binary_search_by|binary_search_by_key|partition_point|is_sorted)$",
          r"^alloc::slice::<impl \[T\]>::(sort|sort_by|sort_by_key|sort_by_cached_key)$", SL + r"sort_unstable(_by|_by_key)?$")
def _(c):
    n = c.name.replace("_unstable", "").replace("_cached", "")
    s = c.sl(0)
    if n.startswith("sort") and not s.len.is_const():
        raise Unsupported("sort of any length")
    return c.shim("s_" + n, [s] + c.args[1:])


@model_rx(SL + r"(starts_with|ends_with|strip_prefix|strip_suffix)$")
def _(c):
    eng, st = c.eng, c.st
    a, b = c.sl(0), c.sl(1)
    pre = c.name in ("starts_with", "strip_prefix")
    test = c.name.endswith("_with")
    if not st.decide(a.len - b.len):
        return c.ret(VBool(FALSE) if test else NONE)
    x = VSlice(a.rid, a.start if pre else st.norm(a.start + a.len - b.len), b.len)
    if b.len == ZERO:
        return c.ret(VBool(TRUE) if test else some(a))
    if st.regions[a.rid].eb is None or st.regions[a.rid].eb != st.regions[b.rid].eb:
        return False
    cond = M.flat_eq(eng, st, x, b)
    if test:
        return c.ret(VBool(cond))
    if not st.decide_cond(cond):
        return c.ret(NONE)
    return c.ret(some(VSlice(a.rid, st.norm(a.start + b.len) if pre else a.start, st.norm(a.len - b.len))))


@model_rx(SL + r"(rotate_left|rotate_right)$")
def _(c):
    st, s, k = c.st, c.sl(0), c.num(1)
    if not st.decide(s.len - k):
        raise Panic("rotate: mid > len")
    m = k if c.name == "rotate_left" else st.norm(s.len - k)
    a = copy_slice(c.eng, st, VSlice(s.rid, s.start, m))
    b = copy_slice(c.eng, st, VSlice(s.rid, st.norm(s.start + m), st.norm(s.len - m)))
    lb = st.norm(s.len - m)
    copy_into(c.eng, st, VSlice(s.rid, s.start, lb), VSlice(b.rid, ZERO, lb))
    copy_into(c.eng, st, VSlice(s.rid, st.norm(s.start + lb), m), VSlice(a.rid, ZERO, m))
    return c.ret(UNIT)


@model_rx(SL + r"copy_within$")
def _(c):
    st, s = c.st, c.sl(0)
    src = index(c.eng, st, s, c.args[1])
    d = c.num(2)
    if not st.decide(s.len - src.len - d):
        raise Panic("dest is out of bounds")
    t = copy_slice(c.eng, st, src)
    copy_into(c.eng, st, VSlice(s.rid, st.norm(s.start + d), src.len), VSlice(t.rid, ZERO, src.len))
    return c.ret(UNIT)


@model_rx(SL + r"swap_with_slice$")
def _(c):
    st, a, b = c.st, c.sl(0), c.sl(1)
    if not M.same_len(c.eng, st, a, b):
        raise Panic("swap_with_slice: length mismatch")
    x, y = copy_slice(c.eng, st, a), copy_slice(c.eng, st, b)
    copy_into(c.eng, st, a, VSlice(y.rid, ZERO, a.len))
    copy_into(c.eng, st, b, VSlice(x.rid, ZERO, b.len))
    return c.ret(UNIT)


@model_rx(SL + r"(split_at_checked|split_at_mut_checked)$")
def _(c):
    s, m = c.sl(0), c.num(1)
    if not c.st.decide(s.len - m):
        return c.ret(NONE)
    return c.ret(some(VTup((sub(c.st, s, ZERO, m), sub(c.st, s, m, s.len - m)))))


@model_rx(r"^core::slice::raw::(from_ref|from_mut)$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    if p[0] == "elem" and not p[3]:
        return c.ret(VSlice(p[1], p[2], ONE))
    if c.name == "from_mut":
        return False
    return c.ret(slice_of(c.eng, c.st, make_array(c.eng, c.st, {"k": "array"}, [v])))


@model_rx(AL + r"concat$", r"^<\[.*\] as alloc::slice::Concat.*>::concat$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    return c.shim("s_concat", [slice_of(c.eng, c.st, v)])


@model_rx(AL + r"repeat$", r"^alloc::str::<impl str>::repeat$")
def _(c):
    if "str" in c.path:
        n = c.num(1)
        if not n.is_const():
            return False
        s = c.sl(0)
        v = VVec(c.st.new_region(eb=8, length=ZERO, base=("const", 0), tag="str"), "string")
        for _ in range(n.c):
            M.append(c.eng, c.st, v, s)
        return c.ret(v)
    return c.shim("s_repeat", [c.sl(0), c.args[1]])


@model_rx(SL + r"split$")
def _(c):
    s = c.sl(0)
    if not s.len.is_const():
        raise Unsupported("split of any length")
    return c.shim("s_split", [s, c.args[1]])


@model_rx(r"^core::slice::iter::Iter(Mut)?::<'a, T>::(as_slice|into_slice|as_mut_slice)$")
def _(c):
    v = deref(c.eng, c.st, c.args[0])
    if isinstance(v, VIter) and isinstance(v.seq, SliceSeq):
        s = v.seq.sl
        return c.ret(sub(c.st, s, v.pos, s.len - v.pos))
    return False


@model_rx(r"^core::array::<impl \[T; N\]>::map$")
def _(c):
    return c.shim("a_map", [c.args[0], c.args[1]])


@model_rx(r"^core::array::from_fn$")
def _(c):
    n = array_len(c)
    return False if n is None else c.shim("a_from_fn", [usize(n), c.args[0]])


def array_len(c):
    n = [x for x in c.o.get("consts") or [] if isinstance(x, int)]
    return n[0] if n else None


@model_rx(r"^core::array::<impl core::convert::TryFrom<(&(mut )?\[T\]|&'a (mut )?\[T\])> for (&'a (mut )?)?\[T; N\]>::try_from$")
def _(c):
    n = [x for x in c.o.get("consts") or [] if isinstance(x, int)]
    for i in range(2):
        t = c.ty_arg(i)
        if t is not None and t["k"] == "array" and isinstance(t.get("len"), int):
            n = n or [t["len"]]
    if not n:
        return False
    s = c.sl(0)
    e = c.st.norm(s.len - n[0])
    if not (c.st.decide(e) and c.st.decide(-e)):
        return c.ret(err(VTop("TryFromSliceError")))
    if "for &" in c.rpath:
        return c.ret(ok(s))
    v = copy_slice(c.eng, c.st, s)
    return c.ret(ok(VVec(v.rid, "array")))


@model_rx(SL + r"(first_chunk|last_chunk|split_first_chunk|split_last_chunk|first_chunk_mut|last_chunk_mut)$")
def _(c):
    n = [x for x in c.o.get("consts") or [] if isinstance(x, int)]
    if not n:
        return False
    s = c.sl(0)
    if not c.st.decide(s.len - n[0]):
        return c.ret(NONE)
    if "first" in c.name:
        a, b = sub(c.st, s, ZERO, n[0]), sub(c.st, s, n[0], s.len - n[0])
    else:
        a, b = sub(c.st, s, s.len - n[0], n[0]), sub(c.st, s, ZERO, s.len - n[0])
    if c.name.startswith("split_first"):
        return c.ret(some(VTup((a, b))))
    if c.name.startswith("split_last"):
        return c.ret(some(VTup((b, a))))
    return c.ret(some(a))


# ------------------------------------------------------------------ vectors
@model_rx(VEC + r"(insert|remove|swap_remove|split_off|append|extend_from_within|drain)$", r"^smallvec::SmallVec::<A>::insert_from_slice$")
def _(c):
    eng, st = c.eng, c.st
    p, v = loc(eng, st, c.args[0])
    r = st.regions[v.rid]
    n = st.norm(r.len)
    nm = c.name
    objs = r.eb is None

    def part(lo, m):
        return VSlice(v.rid, st.norm(L(lo)), st.norm(L(m)))

    def take(lo, m):
        return copy_slice(eng, st, part(lo, m))

    def setlen(m):
        st.regions[v.rid] = st.regions[v.rid].repl(length=st.norm(L(m)))
    if nm == "append":
        q, u = loc(eng, st, c.args[1])
        if objs or st.regions[u.rid].eb != r.eb:
            if r.tag == "lazy" or st.regions[u.rid].tag == "lazy":
                return False
            return c.shim("v_append", c.args)
        M.append(eng, st, v, slice_of(eng, st, u))
        st.regions[u.rid] = st.regions[u.rid].repl(length=ZERO)
        return c.ret(UNIT)
    if nm == "extend_from_within":
        if objs:
            return False
        s = index(eng, st, part(ZERO, n), c.args[1])
        t = copy_slice(eng, st, s)
        M.append(eng, st, v, VSlice(t.rid, ZERO, s.len))
        return c.ret(UNIT)
    if nm == "drain":
        s = index(eng, st, part(ZERO, n), c.args[1])
        if objs:
            if s.start == ZERO and s.len == n:
                old = VVec(M.clone_region(eng, st, v.rid), "vec")
                setlen(ZERO)
                return c.ret(as_iter(eng, st, old))
            return False
        t = copy_slice(eng, st, s)
        rest = st.norm(n - s.start - s.len)
        tail = take(st.norm(s.start + s.len), rest)
        copy_into(eng, st, part(s.start, rest), VSlice(tail.rid, ZERO, rest))
        setlen(st.norm(n - s.len))
        return c.ret(as_iter(eng, st, t))
    i = c.num(1)
    if nm == "insert":
        if not st.decide(n - i):
            raise Panic("insertion index should be <= len")
        if objs:
            return c.shim("v_insert", c.args)
        tail = take(i, n - i)
        setlen(n + 1)
        copy_into(eng, st, part(i + 1, n - i), VSlice(tail.rid, ZERO, st.norm(n - i)))
        st.write_word(v.rid, i, eng.word(st, c.args[2], r.eb))
        return c.ret(UNIT)
    if nm == "insert_from_slice":
        if not st.decide(n - i):
            raise Panic("insertion index should be <= len")
        s = c.sl(2)
        tail = take(i, n - i)
        setlen(n + s.len)
        copy_into(eng, st, part(i, s.len), s)
        copy_into(eng, st, part(i + s.len, n - i), VSlice(tail.rid, ZERO, st.norm(n - i)))
        return c.ret(UNIT)
    if nm == "split_off":
        if not st.decide(n - i):
            raise Panic("`at` split index should be <= len")
        if objs:
            return False
        t = take(i, n - i)
        setlen(i)
        return c.ret(t)
    if not st.decide(n - i - 1):
        raise Panic("removal index should be < len")
    if nm == "swap_remove":
        x = eng.load(st, ("elem", v.rid, st.norm(i), ()))
        y = eng.load(st, ("elem", v.rid, st.norm(n - 1), ()))
        eng.store(st, ("elem", v.rid, st.norm(i), ()), y)
        setlen(n - 1)
        return c.ret(x)
    if objs:
        return c.shim("v_remove", c.args)
    x = eng.load(st, ("elem", v.rid, st.norm(i), ()))
    tail = take(i + 1, n - i - 1)
    copy_into(eng, st, part(i, n - i - 1), VSlice(tail.rid, ZERO, st.norm(n - i - 1)))
    setlen(n - 1)
    return c.ret(x)


@model_rx(VEC + r"(retain|retain_mut|dedup|resize_with)$")
def _(c):
    return c.shim("v_" + c.name, c.args)


@model_rx(r"^<alloc::vec::Vec<T, A> as core::clone::Clone>::clone_from$", r"^<smallvec::SmallVec<A> as core::clone::Clone>::clone_from$",
          r"^<alloc::string::String as core::clone::Clone>::clone_from$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    w = clone_value(c.eng, c.st, deref(c.eng, c.st, c.args[1]))
    c.eng.store(c.st, p, w)
    return c.ret(UNIT)


@model_rx(r"^alloc::rcs?::rc::Rc::<T>::new$", r"^alloc::rc::Rc::<T>::new$", r"^alloc::sync::Arc::<T>::new$", r"^core::cell::(Cell|RefCell)::<T>::new$")
def _(c):
    raise Unsupported("shared cells")


# ------------------------------------------------------------------ options as iterators
@model_rx(r"^core::(option::Option|result::Result)::<.*>::(iter|iter_mut)$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    hit = v.path == OPT and v.variant == 1 or v.path == RES and v.variant == 0
    if not hit:
        return c.ret(VIter(OnceSeq(()), ZERO))
    r = VRef(p[1], tuple(p[2]) + (0,)) if p[0] == "mem" else VElem(p[1], p[2], tuple(p[3]) + (0,))
    return c.ret(VIter(OnceSeq((r,)), ZERO))


# ------------------------------------------------------------------ iterator adapters
NEXT.update({"$ChunksExact": "inner_next", "$MapWhile": "map_while_next", "$Flatten": "flatten_next", "$Peekable": "peekable_next",
             "$Fuse": "fuse_next", "$Step": "step_next", "$FromFn": "from_fn_next", "$RepeatWith": "repeat_with_next",
             "$Successors": "successors_next", "$Cycle": "cycle_next", "$Rev": "rev_next"})
NARGS = {"$ChunksExact": 1}
BACK = {"$Map": "map_back", "$Filter": "filter_back", "$FilterMap": "filter_map_back", "$Inspect": "inspect_back", "$Cloned": "cloned_back",
        "$Chain": "chain_back", "$Rev": "rev_back"}


@model(IT + "map_while")
def _(c):
    return c.ret(VAdt("$MapWhile", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])))


@model(IT + "flatten")
def _(c):
    return c.ret(VAdt("$Flatten", 0, (as_iter(c.eng, c.st, c.args[0]), NONE)))


@model(IT + "flat_map")
def _(c):
    return c.ret(VAdt("$Flatten", 0, (VAdt("$Map", 0, (as_iter(c.eng, c.st, c.args[0]), c.args[1])), NONE)))


@model(IT + "peekable")
def _(c):
    return c.ret(VAdt("$Peekable", 0, (as_iter(c.eng, c.st, c.args[0]), NONE)))


@model_rx(r"^core::iter::adapters::peekable::Peekable::<I>::(peek|peek_mut|next_if|next_if_eq)$")
def _(c):
    p, v = loc(c.eng, c.st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == "$Peekable"):
        return False
    return c.shim("peekable_" + c.name.replace("_mut", ""), [field(p, 0), field(p, 1)] + c.args[1:])


def field(p, i):
    return VRef(p[1], tuple(p[2]) + (i,)) if p[0] == "mem" else VElem(p[1], p[2], tuple(p[3]) + (i,))


@model(IT + "fuse")
def _(c):
    it = as_iter(c.eng, c.st, c.args[0])
    return c.ret(it if isinstance(it, VIter) else VAdt("$Fuse", 0, (it, VBool(FALSE))))


@model(IT + "cycle")
def _(c):
    it = as_iter(c.eng, c.st, c.args[0])
    if not isinstance(it, VIter):
        return False
    return c.ret(VAdt("$Cycle", 0, (it, it)))


@model("core::iter::sources::from_fn::from_fn")
def _(c):
    return c.ret(VAdt("$FromFn", 0, (c.args[0],)))


@model("core::iter::sources::repeat_with::repeat_with")
def _(c):
    return c.ret(VAdt("$RepeatWith", 0, (c.args[0],)))


@model("core::iter::sources::successors::successors")
def _(c):
    return c.ret(VAdt("$Successors", 0, (c.args[0], c.args[1])))


@model_rx(r"::nth_back$")
def _(c):
    if "iter" not in c.path:
        return False
    return c.shim("nth_back", c.args)


@model_rx(r"^<core::slice::iter::Iter(Mut)?<'a, T> as core::iter::traits::iterator::Iterator>::size_hint$", r"^core::iter::traits::iterator::Iterator::size_hint$",
          r"^<core::.*Iterator>::size_hint$")
def _(c):
    it = as_iter(c.eng, c.st, deref(c.eng, c.st, c.args[0]))
    if not isinstance(it, VIter) or it.seq.infinite:
        return False
    n = usize(c.st.norm(it.seq.length(c.st) - it.pos))
    return c.ret(VTup((n, some(n))))


@model(IT + "reduce", IT + "unzip", IT + "partition")
def _(c):
    return c.shim(c.name, [as_iter(c.eng, c.st, c.args[0])] + c.args[1:])


@model(IT + "try_fold", IT + "try_for_each")
def _(c):
    t = None
    for x in reversed(c.o.get("args") or []):
        y = c.body["_types"][x] if isinstance(x, int) else None
        if y and y["k"] == "adt" and y["path"] in (OPT, RES, "core::ops::control_flow::ControlFlow"):
            t = y["path"]
            break
    k = {OPT: "opt", RES: "res"}.get(t, "cf")
    if t is None:
        return False
    return c.shim("%s_%s" % (c.name, k), c.args)


def num_ty(c):
    for i in (1, 2, 0):
        x = c.ty_arg(i)
        if x and x["k"] == "int":
            return ("i" if x.get("signed") else "u") + str(x["bits"])
    return None


@model(IT + "sum", IT + "product")
def _(c):
    t = num_ty(c)
    if t is None:
        return False
    it = as_iter(c.eng, c.st, c.args[0])
    it = VIter(ClonedSeq(it.seq), it.pos) if isinstance(it, VIter) else VAdt("$Cloned", 0, (it,))
    return c.shim("i%s_%s" % ({"sum": "sum", "product": "prod"}[c.name], t), [it])


@model(IT + "is_sorted")
def _(c):
    return c.shim("iter_is_sorted", [as_iter(c.eng, c.st, c.args[0])])


@model(IT + "lt", IT + "le", IT + "gt", IT + "ge", IT + "partial_cmp", IT + "cmp")
def _(c):
    return c.shim("iter_" + c.name, [as_iter(c.eng, c.st, c.args[0]), as_iter(c.eng, c.st, c.args[1])])


# ------------------------------------------------------------------ order of buffers and crate values
@model_rx(r"^<smallvec::SmallVec<A> as core::cmp::PartialOrd>::(partial_cmp|lt|le|gt|ge)$",
          r"^core::slice::cmp::<impl core::cmp::PartialOrd for \[T\]>::(partial_cmp|lt|le|gt|ge)$",
          r"^<alloc::vec::Vec.* as core::cmp::PartialOrd.*>::(partial_cmp|lt|le|gt|ge)$",
          r"^<\[T\] as core::cmp::PartialOrd>::(partial_cmp|lt|le|gt|ge)$")
def _(c):
    x, y = c.sl(0), c.sl(1)
    if c.st.regions[x.rid].eb != 64:
        return False
    return c.shim("words_" + c.name, [x, y])


# ------------------------------------------------------------------ numbers
def constval(v):
    if not isinstance(v, VInt):
        return None
    x = v.rep.c if isinstance(v.rep, Lin) and v.rep.is_const() else v.rep.const() if isinstance(v.rep, Bits) else None
    if x is None:
        return None
    x &= (1 << v.w) - 1
    return x - (1 << v.w) if v.signed and x >> (v.w - 1) else x


def fold(c, a, b, x, y):
    """constant folding of the documented integer methods; None where not covered"""
    n, w, sg = c.name, a.w, a.signed
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

    def i(v, bits=w, signed=sg):
        v &= (1 << bits) - 1
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return VInt(bits, signed, L(v))
    u = x & ((1 << w) - 1)

    def bits_(v):
        return i(v, 32, False)
    if n in ("leading_zeros",):
        return bits_(w - u.bit_length())
    if n == "trailing_zeros":
        return bits_(w if u == 0 else (u & -u).bit_length() - 1)
    if n == "count_ones":
        return bits_(bin(u).count("1"))
    if n == "count_zeros":
        return bits_(w - bin(u).count("1"))
    if n in ("leading_ones", "trailing_ones"):
        z = ~u & ((1 << w) - 1)
        return bits_(w - z.bit_length() if n[0] == "l" else (w if z == 0 else (z & -z).bit_length() - 1))
    if n in ("ilog2", "ilog10", "isqrt") and u > 0:
        import math
        return {"ilog2": lambda: bits_(u.bit_length() - 1), "ilog10": lambda: bits_(len(str(u)) - 1), "isqrt": lambda: i(math.isqrt(u))}[n]()
    if n in ("rotate_left", "rotate_right") and y is not None:
        k = y % w
        k = k if n == "rotate_left" else (w - k) % w
        return i((u << k) | (u >> (w - k)))
    if n in ("swap_bytes", "to_be"):
        return i(int.from_bytes(u.to_bytes(w // 8, "little"), "big"))
    if n == "reverse_bits":
        return i(int(format(u, "0%db" % w)[::-1], 2))
    if n == "is_power_of_two":
        return VBool(("c", u > 0 and u & (u - 1) == 0))
    if n == "next_power_of_two":
        return i(1 << max(0, (u - 1).bit_length())) if u > 1 else i(1)
    if n == "signum":
        return i((x > 0) - (x < 0))
    if n in ("is_negative", "is_positive"):
        return VBool(("c", x < 0 if n == "is_negative" else x > 0))
    if n == "unsigned_abs":
        return i(abs(x), w, False)
    if n in ("wrapping_abs", "wrapping_neg"):
        return i(abs(x) if n == "wrapping_abs" else -x)
    if n in ("checked_neg", "checked_abs"):
        r = -x if n == "checked_neg" else abs(x)
        return some(i(r)) if lo <= r <= hi else NONE
    if n == "abs" and abs(x) <= hi:
        return i(abs(x))
    if n in ("cast_signed", "cast_unsigned"):
        return i(x, w, n == "cast_signed")
    if y is None:
        return None
    if n in ("abs_diff",):
        return i(abs(x - y), w, False)
    m = re.match(r"(wrapping|checked|saturating|overflowing|strict)_(add|sub|mul|div|rem|div_euclid|rem_euclid|shl|shr|pow)$", n)
    if m:
        k, op = m.groups()
        if op in ("shl", "shr"):
            s = y % w
            v = i(u << s) if op == "shl" else i(x >> s)
            if k == "overflowing":
                return VTup((v, VBool(("c", not 0 <= y < w))))
            if k == "checked":
                return some(v) if 0 <= y < w else NONE
            return v
        if op in ("div", "rem", "div_euclid", "rem_euclid"):
            if y == 0:
                return NONE if k == "checked" else None
            q, r = abs(x) // abs(y), abs(x) % abs(y)
            q, r = (-q if (x < 0) != (y < 0) else q), (-r if x < 0 else r)
            if op.endswith("euclid") and r < 0:
                q, r = (q - 1, r + y) if y > 0 else (q + 1, r - y)
            v = q if op.startswith("div") else r
        else:
            if op == "pow" and y > 4096:
                return None
            v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "pow": lambda: x ** y}[op]()
        fits = lo <= v <= hi
        if k == "wrapping":
            return i(v)
        if k == "checked":
            return some(i(v)) if fits else NONE
        if k == "overflowing":
            return VTup((i(v), VBool(("c", not fits))))
        if k == "saturating":
            return i(min(max(v, lo), hi))
        if not fits:
            raise Panic("overflow")
        return i(v)
    if n in ("unbounded_shl", "unbounded_shr"):
        return i(0 if not 0 <= y < w else u << y if n.endswith("l") else u >> y) if not sg else None
    if n in ("rem_euclid", "div_euclid") and y != 0:
        r = x % abs(y)
        return i(r) if n[0] == "r" else i((x - r) // y)
    if n == "pow" and y <= 4096 and lo <= x ** y <= hi:
        return i(x ** y)
    if n == "midpoint" and not sg:
        return i((x + y) // 2)
    return None


# ------------------------------------------------------------------ hash maps
ENT = "std::collections::hash::map::Entry"
OCC, VAC = "$Occupied", "$Vacant"


@model_rx(r"^std::collections::hash::map::(Rustc)?Entry::<.*>::(or_insert|or_insert_with|or_insert_with_key|and_modify)$")
def _(c):
    return c.shim("entry_" + c.name, c.args)


@model_rx(r"^std::collections::hash::map::(Rustc)?Entry::<.*>::(or_default|key)$")
def _(c):
    e = deref(c.eng, c.st, c.args[0])
    if not (isinstance(e, VAdt) and e.path == ENT):
        return False
    if c.name == "key":
        return c.ret(M.box(c.st, e.fields[0].fields[1]))
    ts = [c.ty_arg(i) for i in range(3)]
    t = [x for x in ts if x is not None][1]
    if t["k"] == "int":
        v = VInt(t["bits"], bool(t.get("signed")), ZERO)
    elif t["k"] == "bool":
        v = VBool(FALSE)
    elif t["k"] == "adt" and t["path"].endswith("vec::Vec"):
        v = M.new_vec(c, None)
        return False
    else:
        return False
    return c.shim("entry_or_insert", [e, v])


@model_rx(r"^std::collections::hash::map::(OccupiedEntry|VacantEntry)::<.*>::(get|get_mut|into_mut|insert|remove|remove_entry|key|into_key|insert_entry)$")
def _(c):
    import maps
    eng, st = c.eng, c.st
    e = deref(eng, st, c.args[0])
    if not (isinstance(e, VAdt) and e.path in (OCC, VAC)):
        return False
    mref, key = e.fields
    n = c.name
    if n in ("key", "into_key"):
        return c.ret(key if n == "into_key" else M.box(st, key))
    p, v = loc(eng, st, mref)
    v, at, i = maps.find(eng, st, p, v, key)
    if e.path == VAC:
        return c.ret(VRef(maps.put(eng, st, p, v, i, key, c.args[1])))
    if n in ("get", "get_mut", "into_mut"):
        return c.ret(VRef(v.term[2][at][1]))
    old = st.mem[v.term[2][at][1]]
    if n == "insert":
        maps.put(eng, st, p, v, i, key, c.args[1])
        return c.ret(old)
    maps.delete(eng, st, p, v, i)
    return c.ret(old if n == "remove" else VTup((key, old)))


@model_rx(r"^std::collections::hash::map::HashMap::<K, V, S[^>]*>::retain$")
def _(c):
    return c.shim("map_retain", c.args)


# ------------------------------------------------------------------ text
def pat_bytes(c, i=1):
    p = c.eng.force(c.st, c.args[i])
    if isinstance(p, (VRef, VElem)):
        p = deref(c.eng, c.st, p)
    if isinstance(p, VInt) and isinstance(p.rep, Lin) and p.rep.is_const() and p.rep.c < 128:
        return [p.rep.c]
    if isinstance(p, VStr):
        return list(p.b)
    return None


@model_rx(r"^core::str::<impl str>::(ends_with|strip_suffix)$")
def _(c):
    bs = pat_bytes(c)
    if bs is None:
        return False
    st, s = c.st, c.sl(0)
    hit = st.decide(s.len - len(bs))
    if hit:
        for i, ch in enumerate(bs):
            v = c.eng.load(st, ("elem", s.rid, st.norm(s.start + s.len - len(bs) + i), ()))
            if not st.decide_cond(c.eng.compare(st, "Eq", v, VInt(8, False, L(ch)))):
                hit = False
                break
    if c.name == "ends_with":
        return c.ret(VBool(("c", hit)))
    return c.ret(some(sub(st, s, ZERO, s.len - len(bs))) if hit else NONE)


@model_rx(r"^core::str::<impl str>::(trim_start_matches|trim_end_matches|find|rfind|contains|split)$")
def _(c):
    bs = pat_bytes(c)
    if bs is None or len(bs) != 1:
        s = c.sl(0)
        if bs and c.name in ("trim_start_matches", "find") and s.len.is_const():
            st = c.st
            i = 0

            def at(k):
                return all(st.decide_cond(c.eng.compare(st, "Eq", c.eng.load(st, ("elem", s.rid, st.norm(s.start + k + j), ())), VInt(8, False, L(ch))))
                           for j, ch in enumerate(bs))
            if c.name == "find":
                while i + len(bs) <= s.len.c:
                    if at(i):
                        return c.ret(some(usize(L(i))))
                    i += 1
                return c.ret(NONE)
            while i + len(bs) <= s.len.c and at(i):
                i += len(bs)
            return c.ret(sub(st, s, L(i), s.len - i))
        return False
    if c.name == "split" and not c.sl(0).len.is_const():
        raise Unsupported("split of any length")
    return c.shim("str_" + c.name, [c.sl(0), VInt(8, False, L(bs[0]))])


@model_rx(r"^core::str::<impl str>::(split_at|get)$")
def _(c):
    if c.name == "get":
        try:
            return c.ret(some(index(c.eng, c.st, c.sl(0), c.eng.force(c.st, c.args[1]))))
        except Panic:
            return c.ret(NONE)
    s, m = c.sl(0), c.num(1)
    if not c.st.decide(s.len - m):
        raise Panic("split_at: mid > len")
    return c.ret(VTup((sub(c.st, s, ZERO, m), sub(c.st, s, m, s.len - m))))


@model_rx(r"^core::str::<impl str>::char_indices$")
def _(c):
    return c.ret(VIter(EnumSeq(M.CharSeq(c.sl(0))), ZERO))


@model_rx(r"^core::str::<impl str>::split_once$")
def _(c):
    bs = pat_bytes(c)
    s = c.sl(0)
    if bs is None or len(bs) != 1 or not s.len.is_const():
        return False
    for i in range(s.len.c):
        v = c.eng.load(c.st, ("elem", s.rid, c.st.norm(s.start + i), ()))
        if c.st.decide_cond(c.eng.compare(c.st, "Eq", v, VInt(8, False, L(bs[0])))):
            return c.ret(some(VTup((sub(c.st, s, ZERO, L(i)), sub(c.st, s, L(i + 1), s.len - i - 1)))))
    return c.ret(NONE)


@model_rx(r"^alloc::str::<impl str>::(to_ascii_lowercase|to_ascii_uppercase|to_lowercase|to_uppercase)$")
def _(c):
    return c.shim("bytes_lower" if "lower" in c.name else "bytes_upper", [c.sl(0)])


@model_rx(r"^alloc::str::<impl str>::replace$")
def _(c):
    bs = pat_bytes(c)
    to = c.eng.force(c.st, c.args[2])
    if bs is None or len(bs) != 1 or not (isinstance(to, VStr) and not to.b):
        return False
    return c.shim("str_without", [c.sl(0), VInt(8, False, L(bs[0]))])


@model_rx(r"^alloc::string::String::from_utf8$", r"^core::str::converts::from_utf8$")
def _(c):
    return c.ret(ok(c.args[0]))


@model_rx(r"^alloc::string::String::(insert|remove|pop|clear|truncate)$")
def _(c):
    eng, st = c.eng, c.st
    p, v = loc(eng, st, c.args[0])
    r = st.regions[v.rid]
    n = st.norm(r.len)
    if c.name == "clear":
        st.regions[v.rid] = r.repl(length=ZERO)
        return c.ret(UNIT)
    if c.name == "truncate":
        m = c.num(1)
        if st.decide(n - m):
            st.regions[v.rid] = r.repl(length=m)
        return c.ret(UNIT)
    if c.name == "pop":
        if not st.decide(n - 1):
            return c.ret(NONE)
        x = eng.load(st, ("elem", v.rid, st.norm(n - 1), ()))
        st.regions[v.rid] = r.repl(length=st.norm(n - 1))
        return c.ret(some(VInt(32, False, eng.word(st, x, 32))))
    i = c.num(1)
    if c.name == "insert":
        if not st.decide(n - i):
            raise Panic("insert past the end")
        tail = copy_slice(eng, st, VSlice(v.rid, i, st.norm(n - i)))
        st.regions[v.rid] = st.regions[v.rid].repl(length=st.norm(n + 1))
        copy_into(eng, st, VSlice(v.rid, st.norm(i + 1), st.norm(n - i)), VSlice(tail.rid, ZERO, st.norm(n - i)))
        st.write_word(v.rid, i, eng.word(st, c.args[2], 8))
        return c.ret(UNIT)
    if not st.decide(n - i - 1):
        raise Panic("cannot remove a char from the end of a string")
    x = eng.load(st, ("elem", v.rid, st.norm(i), ()))
    tail = copy_slice(eng, st, VSlice(v.rid, st.norm(i + 1), st.norm(n - i - 1)))
    copy_into(eng, st, VSlice(v.rid, i, st.norm(n - i - 1)), VSlice(tail.rid, ZERO, st.norm(n - i - 1)))
    st.regions[v.rid] = st.regions[v.rid].repl(length=st.norm(n - 1))
    return c.ret(VInt(32, False, eng.word(st, x, 32)))


@model_rx(r"^<alloc::string::String as core::ops::arith::Add<&str>>::add$", r"^<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign$")
def _(c):
    if c.name == "add":
        v = c.eng.force(c.st, c.args[0])
        if not isinstance(v, VVec):
            return False
        M.append(c.eng, c.st, v, c.sl(1))
        return c.ret(v)
    p, v = loc(c.eng, c.st, c.args[0])
    M.append(c.eng, c.st, v, c.sl(1))
    return c.ret(UNIT)


# ------------------------------------------------------------------ borrowed or owned
@model_rx(r"^alloc::borrow::Cow::<'_, B>::(into_owned|to_mut|is_borrowed|is_owned)$")
def _(c):
    eng, st = c.eng, c.st
    ref = c.name != "into_owned"
    if ref:
        p, v = loc(eng, st, c.args[0])
    else:
        v = eng.force(st, c.args[0])
    if not (isinstance(v, VAdt) and v.path == "alloc::borrow::Cow"):
        return False
    if c.name.startswith("is_"):
        return c.ret(VBool(("c", (v.variant == 0) == (c.name == "is_borrowed"))))
    x = v.fields[0]
    if v.variant == 0:
        t = deref(eng, st, x)
        if isinstance(t, VSlice):
            x = copy_slice(eng, st, t)
        elif isinstance(t, VVec):
            x = copy_slice(eng, st, M.slice_of(eng, st, t))
        elif isinstance(t, VStr):
            s = M.slice_of(eng, st, t)
            x = copy_slice(eng, st, s, "string")
        else:
            return False
    if not ref:
        return c.ret(x)
    eng.store(st, p, VAdt(v.path, 1, (x,)))
    return c.ret(VRef(p[1], tuple(p[2]) + (0,)) if p[0] == "mem" else VElem(p[1], p[2], tuple(p[3]) + (0,)))
