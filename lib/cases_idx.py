"""Specification of the views (owned, borrowed, indexed), their equality and hashing, and of the value interner."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import CASES, Case, Chain, mk, OWNED
import cases_bv

IDX = "bv::indexed::BitVecValueIndex"
ONEV = ("-",)


# ---------------------------------------------------------------- conversions between owned and borrowed, C11
def same_bits(c, v, n="a", what="result"):
    w = c.W(n)
    c.bv(v, w, [(ZERO, w, c.src(n))], what)


def own_in(I, env):
    return [I.obj(I.recv("a", path=OWN))]


def ref_in(I, env):
    return [I.ref("a")]


Case("own_from_ref", "<bv::owned::BitVecValue as core::convert::From<bv::borrowed::BitVecValueRef<'a>>>::from", ref_in,
     lambda c: same_bits(c, c.st.ret), ["view", "result"], receivers=ONEV)
Case("ref_from_own", "<bv::borrowed::BitVecValueRef<'a> as core::convert::From<&'a bv::owned::BitVecValue>>::from", own_in,
     lambda c: same_bits(c, c.st.ret), ["view", "result"], receivers=ONEV)
Case("mut_from_own", "<bv::borrowed::BitVecValueMutRef<'a> as core::convert::From<&'a mut bv::owned::BitVecValue>>::from", own_in,
     lambda c: aliased(c), ["view", "result"], receivers=ONEV)
Case("own_clone", "<bv::owned::BitVecValue as core::clone::Clone>::clone", own_in,
     lambda c: same_bits(c, c.st.ret), ["view", "result"], receivers=ONEV)


def aliased(c):
    """a mutable view covers the words of the value itself"""
    same_bits(c, c.st.ret)
    rid = c.bv_parts(c.st.ret)[1]
    own = c.I.bv["a"][2]
    c.need("value", "view of the receiver's own words", rid == own, lambda m: "the mutable view covers a copy of the words")


def recv_variants(*ps):
    return ps


def access_in(I, env):
    return [mk(I, "a")]


def width_check(c):
    c.lin_eq("value", "width()", c.eng.num(c.st, c.st.ret), c.W("a"))


def words_check(c):
    st = c.st
    s = c.eng.models.slice_of(c.eng, st, c.deref(c.st.ret))
    w, n, rid = c.I.bv["a"]
    c.lin_eq("value", "number of words", s.len, st.norm(n))
    o = s.start * 64
    act = [(l - o, h - o, f_shift(x, -o)) for l, h, x in st.read_flat(s.rid, o, o + st.norm(n) * 64)]
    c.flat("value", "words()", act, [(ZERO, st.norm(n) * 64, c.src("a"))])


for _p, _s in ((OWN, "<bv::owned::BitVecValue as bv::ops::"), (REF, "<bv::borrowed::BitVecValueRef<'_> as bv::ops::"),
               (MUT, "<bv::borrowed::BitVecValueMutRef<'_> as bv::ops::")):
    _n = _p.split("::")[-1]
    Case("width_" + _n, _s + "BitVecOps>::width", access_in, width_check, ["view"], receivers=(_p,))
    Case("words_" + _n, _s + "BitVecOps>::words", access_in, words_check, ["view"], receivers=(_p,))
    if _p != REF:
        Case("words_mut_" + _n, _s + "BitVecMutOps>::words_mut", access_in, words_check, ["view"], receivers=(_p,))


# ---------------------------------------------------------------- equality and hashing across views
def eq_any_in(path_a):
    def build(I, env):
        if path_a == OWN:
            a = I.recv("a", path=OWN)
        else:
            a = I.ref("a")
        b = I.recv("b", path=OWN) if getattr(I, "path", "") == OWN else I.ref("b")
        return [I.obj(a), I.obj(b)]
    return build


def eq_any_check(c):
    st = c.st
    wa, wb = c.W("a"), c.W("b")

    def prove():
        if not (st.decide(wa - wb) and st.decide(wb - wa)):
            return False
        x = mk_f(6, [(("in", "a"), ZERO, 1), (("in", "b"), ZERO, 1)])
        return st.known(st.rz_norm(x, ZERO, c.W("a")))

    def oracle(m):
        return m.lin(wa) == m.lin(wb) and m.inputs["a"] == m.inputs["b"]
    c.boolean(st.ret, (prove, oracle))


Case("eq_owned", "<bv::owned::BitVecValue as core::cmp::PartialEq<V>>::eq", eq_any_in(OWN), eq_any_check, ["view"],
     receivers=(OWN, REF))
Case("eq_borrowed", "<bv::borrowed::BitVecValueRef<'_> as core::cmp::PartialEq<O>>::eq", eq_any_in(REF), eq_any_check,
     ["view"], receivers=(OWN, REF))


def pair_in(order):
    """the same bit vector as an owned and as a borrowed value, each with its own hasher"""
    def args(i):
        def f(I, env, st, eng):
            h = ("hasher", i)
            st.mem[h] = VTop("hasher")
            k = ("hashed", i)
            st.mem[k] = env["v"][i if order == 0 else 1 - i]
            return [VRef(k), VRef(h)]
        return f
    return args


def hash_check(c):
    """equal values feed equal sequences to the hasher, whether owned or borrowed"""
    st = c.st
    n0, n1 = st.mem[("eff", 0)], st.mem[("eff", 1)]
    A = [e for e in st.effects[n0:n1] if e[0] == "hash"]
    B = [e for e in st.effects[n1:] if e[0] == "hash"]
    ka, kb = [e[1] for e in A], [e[1] for e in B]
    c.need("value", "kinds of hashed parts", ka == kb,
           lambda m: "the owned value feeds %s to the hasher, the equal borrowed value %s" % (ka, kb))
    for k, x, y in zip(ka, A, B):
        if k == "slice":
            (ea, na, sa), (eb, nb, sb) = x[2], y[2]
            if ea != eb:
                raise Unsupported("hashed slices of different element size")
            c.lin_eq("value", "number of hashed words", st.norm(na), st.norm(nb))
            c.flat("value", "hashed words", sa, sb)
        else:
            p, q = c.eng.force(st, x[2]), c.eng.force(st, y[2])
            if isinstance(p, VInt) and isinstance(q, VInt) and isinstance(p.rep, Lin) and isinstance(q.rep, Lin):
                c.lin_eq("value", "hashed integer", p.rep, q.rep)
            else:
                c.bits("value", "hashed integer", c.eng.word(st, p), c.eng.word(st, q))


def equal_pair(I, env, st, eng):
    env["v"] = (I.recv("a", path=OWN), I.ref("b", like="a"))
    st.add_fact(st.rz_norm(mk_f(6, [(("in", "a"), ZERO, 1), (("in", "b"), ZERO, 1)]), ZERO, I.bv["a"][0]), True)


_ho = "<bv::owned::BitVecValue as core::hash::Hash>::hash"
_hb = "<bv::borrowed::BitVecValueRef<'a> as core::hash::Hash>::hash"
Chain("hash_views", [(_ho, pair_in(0)(0)), (_hb, pair_in(0)(1))], hash_check, ["view"], setup=equal_pair)


def op_in(I, env):
    return [I.obj(I.recv("a", path=OWN)), I.obj(I.ref("b", like="a"))]


Case("operator_add", "<&bv::owned::BitVecValue as core::ops::arith::Add<&V>>::add", op_in,
     cases_bv.arith(lambda st, a, b: a + b), ["arith", "result"], receivers=ONEV)
Case("operator_sub", "<&bv::owned::BitVecValue as core::ops::arith::Sub<&V>>::sub", op_in,
     cases_bv.arith(lambda st, a, b: a - b), ["arith", "result"], receivers=ONEV)


# ---------------------------------------------------------------- indexed views, C12
def store_region(I, env):
    n = lin.new_atom("nstore", 1, 1 << 25) if I.shape is None else L(I.shape.get("store", 6))
    I.W.inputs["store"] = n * 64
    rid = I.st.new_region(eb=64, length=n, base=("src", ("in", "store")))
    env["rid"], env["n"] = rid, n
    return VSlice(rid, ZERO, n)


def an_index(I, env, name, data):
    """an index whose words lie inside the store"""
    w, k = I.width(name)
    i = lin.new_atom("i" + name, 0)
    I.st.add(env["n"] - i - k)
    env[name] = (w, i, k)
    order = {"width": I.wint(w), "index": VInt(32, False, i)}
    return order


def idx_value(I, env, name, prog):
    d = an_index(I, env, name, None)
    a = prog.adts[IDX]
    return VAdt(IDX, 0, tuple(d[f["name"]] for f in a["variants"][0]["fields"]))


def disjoint(I, env, x, y, before):
    (_, i, k), (_, j, l) = env[x], env[y]
    I.st.add(j - i - k if before else i - j - l)


def idx_build(names, dsts=0, orders=()):
    """names: indices; the first is the destination if dsts; orders: which source lies before the destination"""
    def build(I, env):
        sl = store_region(I, env)
        vs = [idx_value(I, env, n, I.W.prog) for n in names]
        if dsts:
            sel = I.path
            for n, o in zip(names[1:], sel):
                disjoint(I, env, names[0], n, o == ">")
        return [sl, vs[0] if len(vs) == 1 else VTup(tuple(vs))]
    return build


def idx_check(names):
    def check(c):
        v = c.deref(c.st.ret)
        parts = v.items if len(names) > 1 else (v,)
        for n, p in zip(names, parts):
            w, i, k = c.env[n]
            pw, rid, start, ln = c.bv_parts(p)
            st = c.st
            c.lin_eq("value", "width of view %s" % n, st.norm(pw), st.norm(w))
            c.need("value", "view %s refers to the store" % n, rid == c.env["rid"], lambda m: "the view covers other memory")
            c.lin_eq("value", "first word of view %s" % n, start, st.norm(i))
            c.lin_eq("value", "number of words of view %s" % n, ln, st.norm(k))
    return check


_r = "<&'a [u64] as bv::indexed::IndexToRef<"
_m = "<&'a mut [u64] as bv::indexed::IndexToMutRef<"
_R, _M = "bv::borrowed::BitVecValueRef<'a>", "bv::borrowed::BitVecValueMutRef<'a>"
Case("get_ref", _r + "I, " + _R + ">>::get_ref", idx_build(["x"]), idx_check(["x"]), ["indexed"], receivers=ONEV)
Case("get_ref_2", _r + "(I, I), (%s, %s)>>::get_ref" % (_R, _R), idx_build(["x", "y"]), idx_check(["x", "y"]), ["indexed"], receivers=ONEV)
Case("get_mut_ref", _m + "I, " + _M + ">>::get_mut_ref", idx_build(["x"]), idx_check(["x"]), ["indexed"], receivers=ONEV)
Case("get_mut_ref_2", _m + "(I, I), (%s, %s)>>::get_mut_ref" % (_M, _R), idx_build(["x", "y"], 1), idx_check(["x", "y"]), ["indexed"],
     receivers=("<", ">"))
Case("get_mut_ref_3", _m + "(I, I, I), (%s, %s, %s)>>::get_mut_ref" % (_M, _R, _R), idx_build(["x", "y", "z"], 1),
     idx_check(["x", "y", "z"]), ["indexed"], receivers=("<<", "<>", "><", ">>"))


def overlap_build(names):
    def build(I, env):
        sl = store_region(I, env)
        vs = [idx_value(I, env, n, I.W.prog) for n in names]
        (_, i, k), (_, j, l) = env[names[0]], env[names[int(I.path)]]
        I.st.add(j + l - i - 1)
        I.st.add(i + k - j - 1)
        return [sl, VTup(tuple(vs))]
    return build


def must_panic(c):
    c.need("value", "overlapping views are rejected", False, lambda m: "returns views although the words overlap")


def panics(c):
    if c.st.status == "panic":
        c.ok("value")
        return
    cases_bv.no_panic(c)


Case("get_mut_ref_2_overlap", _m + "(I, I), (%s, %s)>>::get_mut_ref" % (_M, _R), overlap_build(["x", "y"]), must_panic, ["indexed"],
     receivers=("1",), abnormal=panics)
Case("get_mut_ref_3_overlap", _m + "(I, I, I), (%s, %s, %s)>>::get_mut_ref" % (_M, _R, _R), overlap_build(["x", "y", "z"]), must_panic, ["indexed"],
     receivers=("1", "2"), abnormal=panics)


def range_check(c):
    v = c.deref(c.st.ret)
    w, i, k = c.env["x"]
    c.lin_eq("value", "start", c.eng.num(c.st, v.fields[0]), c.st.norm(i))
    c.lin_eq("value", "end", c.eng.num(c.st, v.fields[1]), c.st.norm(i + k))


def idx_self(I, env):
    store_region(I, env)
    return [I.obj(idx_value(I, env, "x", I.W.prog))]


Case("index_to_range", IDX + "::to_range", idx_self, range_check, ["indexed"], receivers=ONEV)
Case("index_words", IDX + "::words", idx_self, lambda c: c.lin_eq("value", "words", c.eng.num(c.st, c.st.ret), c.st.norm(c.env["x"][2])),
     ["indexed"], receivers=ONEV)
Case("index_width", IDX + "::width", idx_self, lambda c: c.lin_eq("value", "width", c.eng.num(c.st, c.st.ret), c.st.norm(c.env["x"][0])),
     ["indexed"], receivers=ONEV)


def new_in(I, env):
    w, k = I.width("x")
    i = lin.new_atom("ix", 0)
    env["x"] = (w, i, k)
    return [VInt(32, False, i), I.wint(w)]


def new_check(c):
    v = c.deref(c.st.ret)
    a = c.eng.P.adts[IDX]
    d = {f["name"]: x for f, x in zip(a["variants"][0]["fields"], v.fields)}
    c.lin_eq("value", "width", c.eng.num(c.st, d["width"]), c.st.norm(c.env["x"][0]))
    c.lin_eq("value", "index", c.eng.num(c.st, d["index"]), c.st.norm(c.env["x"][1]))


Case("index_new", IDX + "::new", new_in, new_check, ["indexed"], receivers=ONEV)
