"""Iteration over the stored entries of a sparse array (C22), cloning (C23)."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Case, Chain, OWNED, no_panic
import cases_arr as arr
from cases_arr import REC, SPARSE, SR, SNEW, SSTORE, SSELECT, SCLEAR, NEWS, STORE, explicit_map, struct, variant, SREPS, SIMPL

ENTRIES = SPARSE + "::non_default_entries"
NEXT = "<array::owned::SparseArrayEntryIter<'_> as core::iter::traits::iterator::Iterator>::next"
ITER = ("iter",)


def nonzero_diff(c, a, b, w):
    """the inputs a and b differ (partitions)"""
    return not c.st.decide_cond(c.st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", a)), ident(("in", b))), ZERO, c.st.norm(w)))


def some_pair(c, r):
    r = c.variant(r)
    if r.variant == 0:
        return None
    t = c.deref(r.fields[0])
    return t.items if isinstance(t, VTup) else t.fields


def entries_check(expected):
    """the results of the calls of next() are exactly the expected entries, in some order, followed by None.
    expected(c) -> [(index input, value input)], at pairwise different indices"""
    def check(c):
        st, env = c.st, c.env
        exp = expected(c)
        n0 = env["first"]
        got = [some_pair(c, st.mem[("res", n0 + i)]) for i in range(env["calls"])]
        left = list(exp)
        for n, g in enumerate(got):
            if g is None:
                c.need("value", "number of entries", not left, lambda m: "the iterator ends after %d of %d entries" % (n, len(exp)))
                c.need("value", "fused", all(x is None for x in got[n:]), lambda m: "the iterator continues after its end")
                return
            c.need("value", "number of entries", bool(left), lambda m: "the iterator yields more than the %d entries that are stored" % len(exp))
            iw, dw = st.norm(env["iw"]), st.norm(env["dw"])
            w, rid, start, k = c.bv_parts(g[0])
            c.lin_eq("width", "index width", w, iw)
            c.storage(g[0], "index")
            seg = [(l - start * 64, h - start * 64, f_shift(s, -(start * 64))) for l, h, s in st.read_flat(rid, start * 64, start * 64 + iw)]
            bits = None
            for e in left:
                if all(same_src(st, *t) for t in zip_flat(st, seg, [(ZERO, iw, ident(("in", e[0])))])):
                    bits = e
                    break

            def bad(m):
                v = 0
                for l, h, s in seg:
                    for i in range(m.lin(l), m.lin(h)):
                        v |= m.src(s, i) << i
                mk = (1 << m.lin(iw)) - 1
                idx = [m.inputs[e[0]] & mk for e in left]
                return None if v in idx else "the iterator yields index %d, stored are %s" % (v, idx)
            c.need("value", "index of an entry", bits is not None, bad)
            left.remove(bits)
            c.bv(g[1], dw, [(ZERO, dw, ident(("in", bits[1])))], "entry value")
        if left:
            raise Unsupported("more calls of next() needed")
    return check


def begin(I, env, st, eng):
    return [VRef(REC)]


def first_next(res):
    def args(I, env, st, eng):
        st.mem[ITER] = st.mem[("res", res)]
        env["first"] = res + 1
        return [VRef(ITER)]
    return args


def again(I, env, st, eng):
    return [VRef(ITER)]


def iter_steps(res, calls):
    """call non_default_entries as step number res, then next() calls times"""
    return [(ENTRIES, begin), (NEXT, first_next(res))] + [(NEXT, again)] * (calls - 1)


def explicit_setup(count, rev):
    """an arbitrary sparse array with exactly `count` entries"""
    def setup(I, env, st, eng):
        P = eng.P
        arr.sparse_shape(I, env, st, I.path)
        env["default"], env["calls"] = "default", count + 1
        var, si, sd = SREPS[I.path]
        iw, dw = env["iw"], env["dw"]
        mkv = lambda n: VInt(64, False, arr.word_input(I, st, n, dw)) if I.path == "u64u64" else arr.own_value(P, dw, I.words(n, dw, env["dn"])[0])
        mkk = lambda n: VInt(64, False, arr.word_input(I, st, n, iw)) if si else arr.own_value(P, iw, I.words(n, iw, env["in"])[0])
        items = [(mkk("k%d" % i), mkv("v%d" % i)) for i in range(count)]
        for i in range(count):
            for j in range(i):
                st.add_fact(st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", "k%d" % i)), ident(("in", "k%d" % j))), ZERO, iw), False)
        d = mkv("default")
        for i in range(count):
            st.add_fact(st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", "v%d" % i)), ident(("in", "default"))), ZERO, dw), False)
        st.mem[REC] = struct(P, SPARSE, {"index_width": VInt(32, False, iw), "data_width": VInt(32, False, dw),
                                         "data": VAdt(SIMPL, variant(P, SIMPL, var), (d, explicit_map(st, items)))})
        if rev:
            st.mem[("rev",)] = True
    return setup


IT = ["iterate"]
for _n in (0, 1, 2, 3):
    for _r in (False, True)[:1 + (_n == 2)]:
        Chain("entries_%d%s" % (_n, "_reversed" if _r else ""), iter_steps(0, _n + 1),
              entries_check(lambda c, n=_n: [("k%d" % i, "v%d" % i) for i in range(n)]), IT, receivers=SR, setup=explicit_setup(_n, _r))


# entries after a history: new, store, store (, clear)
def hist_setup(calls):
    def setup(I, env, st, eng):
        arr.snew_setup2(I, env, st, eng)
        env["calls"] = calls
    return setup


def store_again(i, v):
    return lambda I, env, st, eng: [VRef(REC), env[i + "v"], env[v]]


def take_new(I, env, st, eng):
    st.mem[REC] = st.mem[("res", 0)]
    return [VRef(REC), env["iv"], env["v"]]


def live_writes(writes):
    def expected(c):
        env, out = c.env, []
        for i, v in writes:
            out = [e for e in out if not arr.same_index(c, e[0], i)]
            if nonzero_diff(c, v, "d", env["dw"]):
                out.append((i, v))
        return out
    return expected


Chain("entries_new_store", [(SNEW, arr.new_args), (SSTORE, take_new)] + iter_steps(2, 2), entries_check(live_writes([("i", "v")])), IT,
      receivers=SR, setup=hist_setup(2))
Chain("entries_new_store2", [(SNEW, arr.new_args), (SSTORE, take_new), (SSTORE, store_again("k", "u"))] + iter_steps(3, 3),
      entries_check(live_writes([("i", "v"), ("k", "u")])), IT, receivers=SR, setup=hist_setup(3))


def clear_new(I, env, st, eng):
    return [VRef(REC)]


def after_clear(c):
    """clear makes the zero value the default"""
    if c.st.decide_cond(c.st.rz_norm(ident(("in", "u")), ZERO, c.st.norm(c.env["dw"]))):
        return []
    return [("k", "u")]


Chain("entries_after_clear", [(SNEW, arr.new_args), (SSTORE, take_new), (SCLEAR, clear_new), (SSTORE, store_again("k", "u"))] + iter_steps(4, 2),
      entries_check(after_clear), IT, receivers=SR, setup=hist_setup(2))


# entries of an array converted from dense form: exactly the indices whose element is not the default
def dense_entries_setup(I, env, st, eng):
    arr.dense_small(("arr",))(I, env, st, eng)
    env["calls"] = (1 << env["iw"].c)      # at least one element has the default value
    if I.shape.get("rev"):
        st.mem[("rev",)] = True


def keep_sparse(I, env, st, eng):
    st.mem[REC] = st.mem[("res", 0)]
    return [VRef(REC)]


def flat_of(c, v, w):
    wid, rid, start, n = c.bv_parts(v)
    o = start * 64
    return wid, [(l - o, h - o, f_shift(s, -o)) for l, h, s in c.st.read_flat(rid, o, o + w)]


def dense_entries_check(c):
    st, env = c.st, c.env
    dw, iw = st.norm(env["dw"]), env["iw"].c
    d = flat_of(c, st.mem[("res", 1)], dw)[1]
    el = lambda i: ident(("in", "arr"), L(i * env["E"]))
    got = [some_pair(c, st.mem[("res", env["first"] + i)]) for i in range(env["calls"])]
    exp = []
    for i in range(1 << iw):
        same = all(st.decide_cond(st.rz_norm(f_apply(lambda p, q: p ^ q, s, el(i)) if not isinstance(s, int) else (f_apply(lambda p: p ^ 1, el(i)) if s else el(i)), l, h))
                   for l, h, s in d)
        if not same:
            exp.append(i)
    n = len([g for g in got if g is not None])
    c.need("value", "number of entries", n == len(exp), lambda m: "%d entries are iterated, %d elements differ from the default" % (n, len(exp)))
    left = list(exp)
    for g in got:
        if g is None:
            continue
        w, f = flat_of(c, g[0], L(iw))
        c.lin_eq("width", "index width", w, L(iw))
        c.storage(g[0], "index")
        x = st.num(Bits(64, f + [(L(iw), L(64), 0)]))
        c.need("value", "index of an entry", x.is_const() and x.c in left, lambda m: "index %s is not one of %s" % (x, left))
        left.remove(x.c)
        c.bv(g[1], dw, [(ZERO, dw, el(x.c))], "entry value")


for _n, _rs, _sh in (("", ("u8", "u64", "big2"), [{"iw": 1}, {"iw": 1, "rev": 1}]), ("_bit", ("bit",), [{"iw": 1}, {"iw": 2}])):
    for _s in _sh:
        Chain("entries_of_dense%s_%d%s" % (_n, _s["iw"], "r" if "rev" in _s else ""),
              [(arr.TO_SPARSE, arr.move_dense), (SPARSE + "::default", keep_sparse), (ENTRIES, begin), (NEXT, first_next(2))] +
              [(NEXT, again)] * ((1 << _s["iw"]) - 1), dense_entries_check, IT, receivers=_rs, setup=dense_entries_setup, shapes=[_s], limit=1000000)


# ---------------------------------------------------------------- the order of owned values, C11
import itertools  # noqa: E402
CMP = "impl core::cmp::Ord cmp " + OWN
PCMP = "impl core::cmp::PartialOrd partial_cmp " + OWN


def three(names):
    def setup(I, env, st, eng):
        for n in names:
            if I.shape is not None:
                k = L(I.shape[n])
                st.mem[(n,)] = arr.own_value(eng.P, *_sized(I, st, n, k))
            else:
                st.mem[(n,)] = I.recv(n, path=OWN)
    return setup


def _sized(I, st, n, k):
    w = k * 64 - 64 + lin.new_atom("r" + n, 1, 64)
    rid, w, _ = I.words(n, w, k)
    return w, rid


def pair_args(a, b):
    return lambda I, env, st, eng: [VRef((a,)), VRef((b,))]


def ordering(c, v):
    """-1, 0, 1 of a core::cmp::Ordering"""
    v = c.variant(v)
    return (-1, 0, 1)[v.variant]


def order_check(c):
    st = c.st
    r = [ordering(c, st.mem[("res", i)]) for i in (0, 1)]
    p = c.variant(st.mem[("res", 2)])
    c.need("value", "partial_cmp", p.variant == 1 and ordering(c, p.fields[0]) == r[0], lambda m: "partial_cmp differs from cmp")
    c.need("value", "antisymmetry", r[0] == -r[1], lambda m: "cmp(a, b) is %d and cmp(b, a) is %d" % tuple(r))
    wa, ra = c.bv_parts(st.mem[("a",)])[:2]
    wb, rb = c.bv_parts(st.mem[("b",)])[:2]
    e = st.norm(wa - wb)
    same = st.decide(e) and st.decide(-e)
    if same:
        d = f_apply(lambda x, y: x ^ y, ident(("in", "a")), ident(("in", "b")))
        same = st.decide_cond(st.rz_norm(d, ZERO, st.norm(wa)))

    def bad(m):
        s = m.lin(wa) == m.lin(wb) and m.inputs["a"] == m.inputs["b"]
        return None if s == (r[0] == 0) else "cmp is %d for %s values" % (r[0], "equal" if s else "different")
    c.need("value", "equal exactly if the same value", (r[0] == 0) == same, bad)


def trans_check(c):
    st = c.st
    ab, bc, ac = (ordering(c, st.mem[("res", i)]) for i in range(3))
    ok = not (ab <= 0 and bc <= 0) or (ac <= 0 and (ac < 0 or ab == bc == 0))
    c.need("value", "transitivity", ok, lambda m: "cmp(a, b) is %d, cmp(b, c) is %d, cmp(a, c) is %d" % (ab, bc, ac))


_two = [{"a": x, "b": y} for x, y in itertools.product((1, 2, 3), repeat=2)]
Chain("order_of_values", [(CMP, pair_args("a", "b")), (CMP, pair_args("b", "a")), (PCMP, pair_args("a", "b"))], order_check, ["view"],
      setup=three("ab"), shapes=_two, deep=[{"a": 4, "b": 4}], limit=1000000)
_three = [{"a": x, "b": y, "c": z} for x, y, z in itertools.product((1, 2), repeat=3)]
Chain("order_is_transitive", [(CMP, pair_args("a", "b")), (CMP, pair_args("b", "c")), (CMP, pair_args("a", "c"))], trans_check, ["view"],
      setup=three("abc"), shapes=_three, deep=[{"a": 3, "b": 3, "c": 3}], limit=1000000)


# ---------------------------------------------------------------- clones and wrapping, C23
CLONE = "impl core::clone::Clone clone "
CPY = ("clone",)
VALUE = "Value"


def keep_clone(idx=None, data=None, to=CPY, res=0):
    def args(I, env, st, eng):
        if to not in st.mem:
            st.mem[to] = st.mem[("res", res)]
        return [VRef(to)] + ([env[idx + "v"]] if idx else []) + ([env[data]] if data else [])
    return args


def on_clone(idx, data=None):
    return lambda I, env, st, eng: [VRef(CPY), env[idx + "v"]] + ([env[data]] if data else [])


CL = ["clone"]
for _k, _rs, _set, _old, _lw, _ty, _sel, _sto, _clr in (
        ("dense", arr.REPS, arr.dense_setup, lambda c, j: arr.old_dense(c, c.env[j]), lambda w, old: arr.last_write(w, arr.old_dense), arr.ARR, arr.SELECT, arr.STORE, arr.CLEAR),
        ("sparse", SR, arr.sparse_setup, arr.old_sparse, lambda w, old: arr.last_store(w), arr.ARR, arr.SELECT, arr.STORE, arr.CLEAR),
        ("sparse_direct", SR, lambda *n, **k: arr.sparse_setup(*n, wrap=False, **k), arr.old_sparse, lambda w, old: arr.last_store(w), SPARSE, SSELECT, SSTORE, SCLEAR)):
    def _is_old(c, old=_old):
        c.bv(c.st.ret, c.st.norm(c.env["dw"]), old(c, "j"), "element")
    _s = _set("i", "j", data=("v",))
    # the clone has the same elements
    Chain("clone_%s" % _k, [(CLONE + _ty, begin), (_sel, keep_clone("j"))], _is_old, CL, receivers=_rs, setup=_set("j"))
    # a store to the original does not reach the clone, and the other way round
    Chain("clone_%s_store" % _k, [(CLONE + _ty, begin), (_sto, lambda I, env, st, eng: [VRef(REC), env["iv"], env["v"]]), (_sel, keep_clone("j"))],
          _is_old, CL, receivers=_rs, setup=_s)
    Chain("clone_%s_store_back" % _k, [(CLONE + _ty, begin), (_sto, keep_clone("i", "v")), (_sel, lambda I, env, st, eng: [VRef(REC), env["jv"]])],
          _is_old, CL, receivers=_rs, setup=_s)
    Chain("clone_%s_clear_back" % _k, [(CLONE + _ty, begin), (_clr, keep_clone()), (_sel, lambda I, env, st, eng: [VRef(REC), env["jv"]])],
          _is_old, CL, receivers=_rs, setup=_set("j"))
    # a store to the clone changes exactly that element
    Chain("clone_%s_store_own" % _k, [(CLONE + _ty, begin), (_sto, keep_clone("i", "v")), (_sel, on_clone("j"))],
          _lw([("i", "v")], _old), CL, receivers=_rs, setup=_s)


def bv_setup(I, env, st, eng):
    st.mem[REC] = I.recv("a", path=OWN)
    p, env["p"] = I.nat("p", 32, 0)
    env["pv"] = p
    w = I.bv["a"][0]
    st.add(w - 1 - env["p"])


def clone_bv(which):
    def check(c):
        w = c.W("a")
        c.bv(c.st.mem[which], w, [(ZERO, w, c.src("a"))], "other copy")
    return check


SETBIT = "bv::ops::BitVecMutOps::set_bit"
for _d, _first, _other in (("", REC, CPY), ("_back", CPY, REC)):
    Chain("clone_bv%s" % _d, [(CLONE + OWN, begin), (SETBIT, lambda I, env, st, eng, f=_first: [keep_clone()(I, env, st, eng) and VRef(f), env["pv"]])],
          clone_bv(_other), CL, receivers=(OWN,), setup=bv_setup)


# the interner
import cases_int as ci  # noqa: E402
ICPY = ("interner2",)


def in_clone(name):
    def args(I, env, st, eng):
        if ICPY not in st.mem:
            st.mem[ICPY] = st.mem[("res", 0)]
        return [VRef(ICPY), env[name]]
    return args


def clone_interner_check(c):
    st = c.st
    ci.read_back(c, 1, "a", "index in the original")
    ci.append_only(c)
    st.mem[("interner",)] = st.mem[ICPY]
    ci.read_back(c, 2, "b", "index in the clone")
    ci.append_only(c)


Chain("clone_interner", [(CLONE + ci.INT, lambda I, env, st, eng: [VRef(("interner",))]), (ci.GET, ci.get("a")), (ci.GET, in_clone("b"))],
      clone_interner_check, CL, setup=ci.given("a", "b"))


def words_check(c):
    s = c.eng.models.slice_of(c.eng, c.st, c.st.ret)
    st, n = c.st, c.st.norm(c.env["n"])
    c.lin_eq("value", "number of words", s.len, n)
    o = s.start * 64
    c.flat("value", "existing words", [(l - o, h - o, f_shift(x, -o)) for l, h, x in st.read_flat(s.rid, o + L(ci.NCONST * 64), o + n * 64)],
           [(L(ci.NCONST * 64), n * 64, c.src("store"))])
    c.flat("value", "constant words", [(l - o, h - o, f_shift(x, -o)) for l, h, x in st.read_flat(s.rid, o, o + L(ci.NCONST * 64))],
           [(L(64 * w + b), L(64 * w + b + 1), (w >> b) & 1 if b < 3 else 0) for w in range(ci.NCONST) for b in range(64)])


Chain("interner_words", [(ci.INT + "::words", lambda I, env, st, eng: [VRef(("interner",))])], words_check, ["interner"], setup=ci.given())


# values: a bit vector or an array
def value_of(prog, kind, v):
    return VAdt(VALUE, variant(prog, VALUE, kind), (v,))


def wrap_setup(name, kind):
    def setup(I, env, st, eng):
        v = I.recv(name, path=OWN) if kind == "BitVec" else None
        if v is None:
            (arr.dense_setup if I.path in arr.REPS else arr.sparse_setup)("j")(I, env, st, eng)
            v = st.mem[REC]
        st.mem[("val", name)] = value_of(eng.P, kind, v)
    return setup


def moved(name):
    return lambda I, env, st, eng: [st.mem[("val", name)]]


def unwrap_check(kind, target):
    def check(c):
        r = c.variant(c.st.ret)
        c.need("value", "matching kind", (r.variant == 0) == (kind == target), lambda m: "try_from of %s into %s is %s" % (kind, target, ("Ok", "Err")[r.variant]))
        if r.variant == 0:
            w = c.W("a")
            c.bv(r.fields[0], w, [(ZERO, w, c.src("a"))], "value")
    return check


TRY = "<impl core::convert::TryFrom<Value> for %s>::try_from"


def ok_of(res):
    def args(I, env, st, eng):
        r = st.mem[("res", res)]
        if r.variant != 0:
            raise Unsupported("try_from of an array fails")
        st.mem[CPY] = r.fields[0]
        return [VRef(CPY), env["jv"]]
    return args


def old_of(c):
    if c.I.path in arr.REPS:
        return arr.old_dense(c, c.env["j"])
    return arr.old_sparse(c, "j")


def same_element(c):
    c.bv(c.st.ret, c.st.norm(c.env["dw"]), old_of(c), "element")


ARRS = tuple(arr.REPS) + SR
Chain("value_to_bv", [(TRY % OWN, moved("a"))], unwrap_check("BitVec", "BitVec"), CL, receivers=(OWN,), setup=wrap_setup("a", "BitVec"))
Chain("value_bv_to_array", [(TRY % arr.ARR, moved("a"))], unwrap_check("BitVec", "Array"), CL, receivers=(OWN,), setup=wrap_setup("a", "BitVec"))
Chain("value_array_to_bv", [(TRY % OWN, moved("a"))], unwrap_check("Array", "BitVec"), CL, receivers=ARRS, setup=wrap_setup("a", "Array"))
Chain("value_to_array", [(TRY % arr.ARR, moved("a")), (arr.SELECT, ok_of(0))], same_element, CL, receivers=ARRS, setup=wrap_setup("a", "Array"))
VCL, VEQ = CLONE + VALUE, "impl core::cmp::PartialEq eq " + VALUE


def clone_value_args(I, env, st, eng):
    return [VRef(("val", "a"))]


def moved_res(res):
    return lambda I, env, st, eng: [st.mem[("res", res)]]


Chain("value_clone_bv", [(VCL, clone_value_args), (TRY % OWN, moved_res(0))], unwrap_check("BitVec", "BitVec"), CL, receivers=(OWN,), setup=wrap_setup("a", "BitVec"))
Chain("value_clone_array", [(VCL, clone_value_args), (TRY % arr.ARR, moved_res(0)), (arr.SELECT, ok_of(1))], same_element, CL, receivers=ARRS,
      setup=wrap_setup("a", "Array"))


def two_values(kinds):
    def setup(I, env, st, eng):
        for n, k in zip("ab", kinds):
            wrap_setup(n, k)(I, env, st, eng)
    return setup


def veq_args(I, env, st, eng):
    return [VRef(("val", "a")), VRef(("val", "b"))]


def veq_check(c):
    st = c.st
    got = c.truth(st.ret)
    if "b" not in c.I.bv or "a" not in c.I.bv:
        return c.need("value", "equality", not got, lambda m: "a bit vector equals an array")
    e = st.norm(c.W("a") - c.W("b"))
    same = st.decide(e) and st.decide(-e)
    if same:
        same = st.decide_cond(st.rz_norm(f_apply(lambda x, y: x ^ y, ident(("in", "a")), ident(("in", "b"))), ZERO, c.W("a")))
    c.need("value", "equality", got == same,
           lambda m: None if got == (m.lin(c.W("a")) == m.lin(c.W("b")) and m.inputs["a"] == m.inputs["b"]) else "== is %s" % got)


Chain("value_eq_bv", [(VEQ, veq_args)], veq_check, CL, receivers=(OWN,), setup=two_values(("BitVec", "BitVec")))
Chain("value_eq_mixed", [(VEQ, veq_args)], veq_check, CL, receivers=ARRS, setup=two_values(("BitVec", "Array")))
Chain("value_eq_mixed_2", [(VEQ, veq_args)], veq_check, CL, receivers=ARRS, setup=two_values(("Array", "BitVec")))


# ---------------------------------------------------------------- arrays of different types are never equal, C17
def typed_setup(kinds, what):
    """two arrays whose index width, respectively data width, differs"""
    def setup(I, env, st, eng):
        P, rep = eng.P, I.path
        var, E, k, lo, hi = arr.DENSE_REPS[rep]
        other = dict(arr.DENSE_REPS)
        envs = []
        for n, kd in zip("ab", kinds):
            e = {}
            r = rep
            if n == "b" and what == "data" and lo == hi:
                r = "u8"
            I.shape["iw"] = 2 if n == "b" and what == "index" else 1
            arr.dense_shape(I, e, st, r)
            if n == "b" and what == "index":
                e["dw"] = envs[0]["dw"]
            if n == "b" and what == "data":
                x, y = envs[0]["dw"], e["dw"]
                if (x - y).is_const():
                    pass
                else:
                    st.add(x - y - 1 if I.shape["order"] else y - x - 1)
            if kd == "d":
                v = arr.wrap_array(P, arr.dense_value(I, e, st, P, r, n), "Dense")
                for i in range(1 << e["iw"].c):
                    arr.fits(st, e, L(i), n)
            else:
                v = arr.wrap_array(P, arr.sparse_for(I, e, st, P, r, n + "d", [(n + "0", 0)]), "Sparse")
            st.mem[(n,)] = v
            envs.append(e)
        env.update(envs[0])
    return setup


def differ_check(opt):
    def check(c):
        r = c.st.ret
        if opt:
            r = c.variant(r)
            c.need("value", "no answer for arrays of different types", r.variant == 0, lambda m: "is_equal() is Some for arrays of different types")
        else:
            c.need("value", "arrays of different types are not equal", not c.truth(r), lambda m: "== is true for arrays of different types")
    return check


for _o, _fn in ((True, arr.IS_EQ), (False, arr.EQ)):
    for _k in ("dd", "ss", "ds", "sd"):
        for _x in ("index", "data"):
            Chain("differing_%s_%s_%s" % (_x, _k, "is_equal" if _o else "eq"), [(_fn, arr.eq_args)], differ_check(_o), ["areq"], receivers=arr.REPS,
                  setup=typed_setup(_k, _x), shapes=[{"order": 0}, {"order": 1}][:1 + (_x == "data")])


# ---------------------------------------------------------------- derived sizes
def count_check(which):
    def check(c):
        st = c.st
        got = c.eng.num(st, st.ret)
        if which == "elements":
            c.lin_eq("value", "number of elements", got, st.norm(c.env["N"]))
        else:
            dw = st.norm(c.env["dw"])

            def bad(m):
                return None if m.lin(got) == (m.lin(dw) + 63) // 64 else "%d words per element for data width %d" % (m.lin(got), m.lin(dw))
            c.need("value", "words per element", st.ge0(got * 64 - dw) and st.ge0(dw + 63 - got * 64), bad)
    return check


for _n, _w in (("num_elements", "elements"), ("words_per_element", "words")):
    Chain("dense_" + _n, [("array::ops::ArrayOps::" + _n, begin)], count_check(_w), ["dense"], receivers=arr.REPS, setup=arr.dense_setup())
Chain("sparse_words_per_element", [("array::ops::ArrayOps::words_per_element", begin)], count_check("words"), ["sparse"], receivers=SR, setup=arr.sparse_setup())
