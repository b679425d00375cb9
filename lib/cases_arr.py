"""Specification of the arrays: dense (C14) and sparse (C15) storage, conversions and equality (C16).

An array is specified as a function from indices to values.  Inputs are arbitrary arrays in each of the internal
representations; updates are followed by a read at an arbitrary index, so that every index is covered."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Chain, Case, no_panic
import maps

A = "array::owned::"
ARR, IMPL = A + "ArrayValue", A + "ArrayImpl"
DENSE, DIMPL = A + "DenseArrayValue", A + "DenseArrayImpl"
SPARSE, SIMPL = A + "SparseArrayValue", A + "SparseArrayImpl"
SELECT = "<array::owned::ArrayValue as array::ops::ArrayOps>::select"
STORE = "<array::owned::ArrayValue as array::ops::ArrayMutOps>::store"
CLEAR = "<array::owned::ArrayValue as array::ops::ArrayMutOps>::clear"
SSELECT = "<array::owned::SparseArrayValue as array::ops::ArrayOps>::select"
SSTORE = "<array::owned::SparseArrayValue as array::ops::ArrayMutOps>::store"
SCLEAR = "<array::owned::SparseArrayValue as array::ops::ArrayMutOps>::clear"

REC = ("array",)


def variant(prog, path, name):
    for i, v in enumerate(prog.adts[path]["variants"]):
        if v["name"] == name:
            return i
    raise Unsupported("no variant %s::%s" % (path, name))


def struct(prog, path, d):
    f = [x["name"] for x in prog.adts[path]["variants"][0]["fields"]]
    if set(f) != set(d):
        raise Unsupported("fields of %s" % path)
    return VAdt(path, 0, tuple(d[x] for x in f))


def wrap_array(prog, v, kind):
    return struct(prog, ARR, {"data": VAdt(IMPL, variant(prog, IMPL, kind), (v,))})


# ---------------------------------------------------------------- numbers as indices
def index_value(I, env, st, name, iw, N):
    """an index of width iw below N = 2^iw, as a bit vector of one word"""
    i = lin.new_atom("i" + name, 0, (1 << 30) - 1)
    st.add(N - 1 - i)
    rid = st.new_region(eb=64, length=ONE, base=("src", ("num", i)))
    env[name] = i
    return VAdt(REF, 0, (VInt(32, False, iw), VSlice(rid, ZERO, ONE)))


def data_value(I, env, name, dw, n):
    env[name] = v = I.ref(name, w=dw, n=n)
    return v


# ---------------------------------------------------------------- dense inputs
DENSE_REPS = {
    # name: (variant, element bits, words per element, least and greatest data width)
    "bit": ("Bit", 1, 1, 1, 1), "u8": ("U8", 8, 1, 2, 8), "u64": ("U64", 64, 1, 9, 64),
    "big2": ("Big", 128, 2, 65, 128), "big3": ("Big", 192, 3, 129, 192),
}


def dense_shape(I, env, st, rep, iwmax=30):
    var, E, k, lo, hi = DENSE_REPS[rep]
    I.named.append("iw")
    iw = lin.new_atom("niw", 1, iwmax) if I.shape is None else L(I.shape.get("iw", 2))
    N = st.pow2(iw)
    st.add(N - 2)
    st.add(L(1 << iwmax) - N)
    dw = L(lo) if lo == hi else lin.new_atom("rdw", lo, hi)
    env.update(iw=iw, N=N, dw=dw, E=E, k=k, rep=rep)
    return iw, N, dw, E, k


def dense_value(I, env, st, prog, rep, name="arr"):
    var, E, k, lo, hi = DENSE_REPS[rep]
    iw, N, dw = env["iw"], env["N"], env["dw"]
    I.W.inputs[name] = N * E
    if var == "Bit":
        if iw.is_const():
            w, n = N, L((N.c + 63) // 64)
        elif "bitw" in env:
            w, n = env["bitw"]
        else:
            w, n = env["bitw"] = I.width(name)
            st.add(w - N)
            st.add(N - w)
        rid = st.new_region(eb=64, length=n, base=("src", ("in", name)))
        p = struct(prog, OWN, {"width": VInt(32, False, w), "words": VVec(rid, "small")})
    else:
        rid = st.new_region(eb=8 if var == "U8" else 64, length=N * (1 if var == "U8" else k), base=("src", ("in", name)))
        p = VVec(rid, "vec")
    env["rid"] = rid
    return struct(prog, DENSE, {"index_width": VInt(32, False, iw), "data_width": VInt(32, False, dw),
                                "data": VAdt(DIMPL, variant(prog, DIMPL, var), (p,))})


def fits(st, env, i, name="arr"):
    """element i has no bit at or above the data width"""
    E = env["E"]
    if E > 1:
        st.add_fact(st.rz_norm(ident(("in", name)), i * E + env["dw"], i * E + E), True)


def old_dense(c, i, name="arr"):
    E = c.env["E"]
    return [(ZERO, c.st.norm(c.env["dw"]), ident(("in", name), c.st.norm(i * E)))]


def dense_setup(*names, data=()):
    def setup(I, env, st, eng):
        prog = eng.P
        iw, N, dw, E, k = dense_shape(I, env, st, I.path)
        st.mem[REC] = wrap_array(prog, dense_value(I, env, st, prog, I.path), "Dense")
        for n in names:
            env[n + "v"] = index_value(I, env, st, n, iw, N)
            fits(st, env, env[n])
        for n in data:
            data_value(I, env, n, dw, L(k))
    return setup


def call(idx, data=None):
    def args(I, env, st, eng):
        return [VRef(REC), env[idx + "v"]] + ([env[data]] if data else [])
    return args


def check_select(c):
    c.bv(c.st.ret, c.st.norm(c.env["dw"]), old_dense(c, c.env["i"]), "selected value")


def last_write(writes, old):
    """the value at index j after the writes"""
    def check(c):
        st, env = c.st, c.env
        dw = st.norm(env["dw"])
        for i, v in reversed(writes):
            if st.decide_eq(env["j"] - env[i]):
                return c.bv(st.ret, dw, [(ZERO, dw, c.src(v))], "value at the written index")
        c.bv(st.ret, dw, old(c, env["j"]), "value at another index")
    return check


REPS = tuple(DENSE_REPS)
T = ["dense"]
Chain("dense_select", [(SELECT, call("i"))], check_select, T, receivers=REPS, setup=dense_setup("i"))
Chain("dense_store", [(STORE, call("i", "v")), (SELECT, call("j"))], last_write([("i", "v")], old_dense), T, receivers=REPS,
      setup=dense_setup("i", "j", data=("v",)))
Chain("dense_store2", [(STORE, call("i", "v")), (STORE, call("k", "u")), (SELECT, call("j"))],
      last_write([("i", "v"), ("k", "u")], old_dense), T, receivers=REPS, setup=dense_setup("i", "k", "j", data=("v", "u")))
Chain("dense_clear", [(CLEAR, lambda I, env, st, eng: [VRef(REC)]), (SELECT, call("j"))],
      lambda c: c.bv(c.st.ret, c.st.norm(c.env["dw"]), [(ZERO, c.st.norm(c.env["dw"]), 0)], "value after clear"), T, receivers=REPS,
      setup=dense_setup("j"))


# ---------------------------------------------------------------- constructors
NEWD, NEWS = ARR + "::new_dense", ARR + "::new_sparse"


def new_setup(I, env, st, eng):
    iw, N, dw, E, k = dense_shape(I, env, st, I.path, 25)
    data_value(I, env, "d", dw, L(k))
    env["jv"] = index_value(I, env, st, "j", iw, N)


def new_args(I, env, st, eng):
    return [VInt(32, False, env["iw"]), env["d"]]


def on_result(idx):
    def args(I, env, st, eng):
        st.mem[REC] = st.mem[("res", 0)]
        return [VRef(REC), env[idx + "v"]]
    return args


def check_default(c):
    dw = c.st.norm(c.env["dw"])
    c.bv(c.st.ret, dw, [(ZERO, dw, c.src("d"))], "initial value")


Chain("new_dense", [(NEWD, new_args), (SELECT, on_result("j"))], check_default, T, receivers=REPS, setup=new_setup)


def new_two(I, env, st, eng):
    new_setup(I, env, st, eng)
    env["iv"] = index_value(I, env, st, "i", env["iw"], env["N"])
    data_value(I, env, "v", env["dw"], L(env["k"]))


def store_result(I, env, st, eng):
    st.mem[REC] = st.mem[("res", 0)]
    return [VRef(REC), env["iv"], env["v"]]


def on_rec(idx=None):
    return lambda I, env, st, eng: [VRef(REC)] + ([env[idx + "v"]] if idx else [])


def given_default(c, j):
    return [(ZERO, c.st.norm(c.env["dw"]), c.src("d"))]


Chain("new_dense_store", [(NEWD, new_args), (STORE, store_result), (SELECT, on_rec("j"))], last_write([("i", "v")], given_default), T,
      receivers=REPS, setup=new_two)

IWIDTH, DWIDTH = ("<array::owned::ArrayValue as array::ops::ArrayOps>::" + n for n in ("index_width", "data_width"))
NUM = "array::ops::ArrayOps::num_elements"


def shape_check(c):
    st = c.st
    num = lambda v: c.eng.num(st, v)
    c.lin_eq("value", "index width", num(st.mem[("res", c.env["first"])]), st.norm(c.env["iw"]))
    c.lin_eq("value", "data width", num(st.mem[("res", c.env["first"] + 1)]), st.norm(c.env["dw"]))


def shape_steps(first, pre, setup):
    def s2(I, env, st, eng):
        setup(I, env, st, eng)
        env["first"] = first

    def take(I, env, st, eng):
        if pre:
            st.mem[REC] = st.mem[("res", 0)]
        return [VRef(REC)]
    return dict(steps=pre + [(IWIDTH, take), (DWIDTH, on_rec())], setup=s2)


_s = shape_steps(0, [], dense_setup())
Chain("dense_widths", _s["steps"], shape_check, T, receivers=REPS, setup=_s["setup"])
_s = shape_steps(1, [(NEWD, new_args)], new_setup)
Chain("new_dense_widths", _s["steps"], shape_check, T, receivers=REPS, setup=_s["setup"])


def slice_setup(eb):
    """a slice of n elements and an index of the resulting width"""
    def setup(I, env, st, eng):
        if I.shape is None:
            return symbolic_slice(I, env, st, eb)
        n = I.shape["len"]
        iw = max(1, (n - 1).bit_length())
        I.W.inputs["s"] = L(n * eb)
        env["rid"] = st.new_region(eb=eb, length=L(n), base=("src", ("in", "s")), tag="bool" if eb == 1 else "")
        env.update(iw=L(iw), dw=L(eb), n=n, args=[VSlice(env["rid"], ZERO, L(n))])
        env["jv"] = index_value(I, env, st, "j", L(iw), L(1 << iw) if n > 1 else ONE)
    return setup


def symbolic_slice(I, env, st, eb):
    """a slice of any length n >= 2: the index width is the one with 2^(width-1) < n <= 2^width"""
    n = lin.new_atom("len", 2, 1 << 25)
    z = st.term_atom(("leading_zeros", 64, st.norm(n - 1)), False, 0, 64, name="leading_zeros")
    iw = 64 - z
    st.add(iw - 1)
    st.add(L(25) - iw)
    st.add(n - 1 - st.pow2(st.norm(iw - 1)))
    st.add(st.pow2(st.norm(iw)) - n)
    I.W.inputs["s"] = st.norm(n * eb)
    env["rid"] = st.new_region(eb=eb, length=n, base=("src", ("in", "s")), tag="bool" if eb == 1 else "")
    env.update(iw=iw, dw=L(eb), n=n, args=[VSlice(env["rid"], ZERO, n)])
    env["jv"] = index_value(I, env, st, "j", st.norm(iw), st.pow2(st.norm(iw)))


def check_from(c):
    st, env = c.st, c.env
    eb = env["dw"].c
    if eb == 1 and isinstance(env["n"], int):
        for v in range(env["n"]):
            if st.decide_eq(env["j"] - v):
                return c.bv(st.ret, ONE, [(ZERO, ONE, ident(("in", "s"), L(v)))], "element of the slice")
    if st.decide(env["n"] - 1 - env["j"]):
        c.bv(st.ret, L(eb), [(ZERO, L(eb), ident(("in", "s"), st.norm(env["j"] * eb)))], "element of the slice")
    else:
        c.bv(st.ret, L(eb), [(ZERO, L(eb), 0)], "padding element")


for _t, _eb in (("bool", 1), ("u8", 8), ("u64", 64)):
    Chain("dense_from_" + _t, [("<%s as core::convert::From<&[%s]>>::from" % (ARR, _t), lambda I, env, st, eng: env["args"]), (SELECT, on_result("j"))],
          check_from, T, setup=slice_setup(_eb), shapes=[None] * (_eb > 1) + [{"len": n} for n in ((2, 3, 4, 5) if _eb == 1 else (2, 3, 4, 5, 7, 8, 9, 65, 130))])


# ---------------------------------------------------------------- sparse storage, C15
SREPS = {
    # name: (variant, index words or None, data words or None)
    "u64u64": ("U64U64", True, True), "u64big": ("U64Big", True, False),
    "bigbig_small": ("BigBig", False, True), "bigbig": ("BigBig", False, False),
}


def own_value(prog, w, rid):
    return struct(prog, OWN, {"width": VInt(32, False, w), "words": VVec(rid)})


def sparse_shape(I, env, st, rep):
    var, small_i, small_d = SREPS[rep]
    for n, small in (("i", small_i), ("d", small_d)):
        if small:
            r = lin.new_atom("w" + n, 1, 64)
            env[n + "w"], env[n + "n"] = r, ONE
        else:
            k = lin.new_atom("n" + n, 2, 1 << 25) if I.shape is None else L(2)
            env[n + "w"], env[n + "n"] = k * 64 - 64 + lin.new_atom("r" + n, 1, 64), k
    env["rep"] = rep


def word_input(I, st, name, w):
    I.W.inputs[name] = w
    s = ident(("in", name))
    return Bits(64, [(ZERO, w, s), (w, L(64), 0)])


def sparse_entry(I, env, prog, name):
    """values of an arbitrary map: they fit the data width and differ from the default value"""
    def value(eng, st, k, j):
        n = "%s@%d" % (name, j)
        dw, dn = env["dw"], env["dn"]
        I.W.inputs[n] = dw
        st.add_fact(st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", n)), ident(("in", env["default"]))), ZERO, dw), False)
        if env["rep"] == "u64u64":
            return VInt(64, False, Bits(64, [(ZERO, dw, ident(("in", n))), (dw, L(64), 0)]))
        rid = st.new_region(eb=64, length=dn, base=("src", ("in", n)))
        return own_value(prog, dw, rid)
    return value


def sparse_value(I, env, st, prog, entries, default):
    """entries: a map value, default: name of the default value"""
    var, small_i, small_d = SREPS[env["rep"]]
    env["default"] = default
    dw, dn = env["dw"], env["dn"]
    if env["rep"] == "u64u64":
        d = VInt(64, False, word_input(I, st, default, dw))
    else:
        d = own_value(prog, dw, I.words(default, dw, dn)[0])
    return struct(prog, SPARSE, {"index_width": VInt(32, False, env["iw"]), "data_width": VInt(32, False, dw),
                                 "data": VAdt(SIMPL, variant(prog, SIMPL, var), (d, entries))})


def distinct_keys(I, env, st, prog, n):
    """n pairwise different indices"""
    iw, k = env["iw"], env["in"]
    names, out = [], []
    for j in range(n):
        x = "key%d" % j
        if SREPS[env["rep"]][1]:
            out.append(VInt(64, False, word_input(I, st, x, iw)))
        else:
            out.append(own_value(prog, iw, I.words(x, iw, k)[0]))
        for y in names:
            st.add_fact(st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", x)), ident(("in", y))), ZERO, iw), False)
        names.append(x)
    return out


def with_entries(v, m):
    d = v.fields[2]
    return VAdt(v.path, v.variant, v.fields[:2] + (VAdt(d.path, d.variant, (d.fields[0], m)),))


def sparse_setup(*names, data=(), wrap=True):
    def setup(I, env, st, eng):
        prog = eng.P
        sparse_shape(I, env, st, I.path)
        I.W.maps["arr"] = sparse_entry(I, env, prog, "arr")
        v = sparse_value(I, env, st, prog, VMap(("m", "arr", ())), "default")
        I.named.append("entries")
        if I.shape is not None:
            v = with_entries(v, maps.closed(eng, st, "arr", distinct_keys(I, env, st, prog, I.shape.get("entries", 0))))
        st.mem[REC] = wrap_array(prog, v, "Sparse") if wrap else v
        for n in names:
            env[n + "v"] = I.ref(n, w=env["iw"], n=env["in"])
        for n in data:
            data_value(I, env, n, env["dw"], env["dn"])
    return setup


def key_of(c, name):
    if SREPS[c.env["rep"]][1]:
        return VInt(64, False, Bits(64, [(ZERO, c.env["iw"], c.src(name)), (c.env["iw"], L(64), 0)]))
    return own_value(c.eng.P, c.env["iw"], c.I.bv[name][2])


def same_index(c, a, b):
    return a == b or c.st.decide_cond(c.st.rz_norm(f_apply(lambda p, q: p ^ q, c.src(a), c.src(b)), ZERO, c.st.norm(c.env["iw"])))


def old_sparse(c, j):
    st, dw = c.st, c.st.norm(c.env["dw"])
    v = maps.base_entry(c.eng, st, "arr", key_of(c, j))
    if v is None:
        return [(ZERO, dw, ident(("in", "default")))]
    if isinstance(v, VInt):
        return [(ZERO, dw, [s for l, h, s in v.rep.segs][0])]
    rid = c.bv_parts(v)[1]
    return st.read_flat(rid, ZERO, dw)


def check_old(c):
    c.bv(c.st.ret, c.st.norm(c.env["dw"]), old_sparse(c, "i"), "selected value")


def last_store(writes, old=None):
    def check(c):
        st, dw = c.st, c.st.norm(c.env["dw"])
        for i, v in reversed(writes):
            if same_index(c, "j", i):
                return c.bv(st.ret, dw, [(ZERO, dw, c.src(v))], "value at the written index")
        c.bv(st.ret, dw, (old or old_sparse)(c, "j"), "value at another index")
    return check


SR = tuple(SREPS)
S = ["sparse"]
for _w, _sel, _sto, _clr in ((True, SELECT, STORE, CLEAR), (False, SSELECT, SSTORE, SCLEAR)):
    _p = "" if _w else "direct_"
    Chain("sparse_%sselect" % _p, [(_sel, call("i"))], check_old, S, receivers=SR, setup=sparse_setup("i", wrap=_w))
    Chain("sparse_%sstore" % _p, [(_sto, call("i", "v")), (_sel, call("j"))], last_store([("i", "v")]), S, receivers=SR,
          setup=sparse_setup("i", "j", data=("v",), wrap=_w))
    Chain("sparse_%sstore2" % _p, [(_sto, call("i", "v")), (_sto, call("k", "u")), (_sel, call("j"))],
          last_store([("i", "v"), ("k", "u")]), S, receivers=SR, setup=sparse_setup("i", "k", "j", data=("v", "u"), wrap=_w))
    Chain("sparse_%sclear" % _p, [(_clr, lambda I, env, st, eng: [VRef(REC)]), (_sel, call("j"))],
          lambda c: c.bv(c.st.ret, c.st.norm(c.env["dw"]), [(ZERO, c.st.norm(c.env["dw"]), 0)], "value after clear"), S, receivers=SR,
          setup=sparse_setup("j", wrap=_w))
    Chain("sparse_%sclear_store" % _p, [(_clr, lambda I, env, st, eng: [VRef(REC)]), (_sto, call("i", "v")), (_sel, call("j"))],
          last_store([("i", "v")], lambda c, j: [(ZERO, c.st.norm(c.env["dw"]), 0)]), S, receivers=SR,
          setup=sparse_setup("i", "j", data=("v",), wrap=_w))


def snew_setup(I, env, st, eng):
    sparse_shape(I, env, st, I.path)
    data_value(I, env, "d", env["dw"], env["dn"])
    for n in "ij":
        env[n + "v"] = I.ref(n, w=env["iw"], n=env["in"])
    data_value(I, env, "v", env["dw"], env["dn"])


def snew_setup2(I, env, st, eng):
    snew_setup(I, env, st, eng)
    env["kv"] = I.ref("k", w=env["iw"], n=env["in"])
    data_value(I, env, "u", env["dw"], env["dn"])


SNEW = SPARSE + "::new"
for _n, _new, _sel, _sto in (("", NEWS, SELECT, STORE), ("direct_", SNEW, SSELECT, SSTORE)):
    Chain("sparse_%snew" % _n, [(_new, new_args), (_sel, on_result("j"))], check_default, S, receivers=SR, setup=snew_setup)
    if not _n:
        Chain("sparse_new_store2", [(_new, new_args), (_sto, store_result), (_sto, lambda I, env, st, eng: [VRef(REC), env["kv"], env["u"]]),
                                    (_sel, on_rec("j"))],
              last_store([("i", "v"), ("k", "u")], given_default), S, receivers=SR, setup=snew_setup2)
    Chain("sparse_%snew_store" % _n, [(_new, new_args), (_sto, store_result), (_sel, on_rec("j"))],
          last_store([("i", "v")], given_default), S, receivers=SR, setup=snew_setup)

SIW, SDW = ("<array::owned::SparseArrayValue as array::ops::ArrayOps>::" + n for n in ("index_width", "data_width"))
for _w, _a, _b in ((True, IWIDTH, DWIDTH), (False, SIW, SDW)):
    _s = shape_steps(0, [], sparse_setup(wrap=_w))
    Chain("sparse_%swidths" % ("" if _w else "direct_"), [(_a, _s["steps"][0][1]), (_b, on_rec())], shape_check, S, receivers=SR, setup=_s["setup"])
_s = shape_steps(1, [(NEWS, new_args)], snew_setup)
Chain("sparse_new_widths", _s["steps"], shape_check, S, receivers=SR, setup=_s["setup"])
Chain("sparse_default", [(SPARSE + "::default", on_rec())],
      lambda c: c.bv(c.st.ret, c.st.norm(c.env["dw"]), [(ZERO, c.st.norm(c.env["dw"]), ident(("in", "default")))], "default value"), S,
      receivers=SR, setup=sparse_setup(wrap=False))


# ---------------------------------------------------------------- conversions, C16
def explicit_map(st, items):
    """a map with exactly these keys and values"""
    return VMap(("m", None, tuple((maps.cell(st, k), maps.cell(st, v)) for k, v in items)))


def sparse_item(I, env, st, prog, name):
    """a data value that differs from the default value"""
    dw, k = env["dw"], L(env["k"])
    st.add_fact(st.rz_norm(f_apply(lambda p, q: p ^ q, ident(("in", name)), ident(("in", env["default"]))), ZERO, dw), False)
    if env["rep"] in ("bit", "u8", "u64"):
        return VInt(64, False, word_input(I, st, name, dw))
    return own_value(prog, dw, I.words(name, dw, k)[0])


def sparse_for(I, env, st, prog, rep, default, keys):
    """a sparse array with the dense shape of env: explicit entries keys = [(name, index)]"""
    env["rep"] = rep
    env["default"] = default
    dw, k = env["dw"], L(env["k"])
    if rep in ("bit", "u8", "u64"):
        d, var = VInt(64, False, word_input(I, st, default, dw)), "U64U64"
    else:
        d, var = own_value(prog, dw, I.words(default, dw, k)[0]), "U64Big"
    items = []
    for n, i in keys:
        items.append((VInt(64, False, L(i)), sparse_item(I, env, st, prog, n)))
    return struct(prog, SPARSE, {"index_width": VInt(32, False, env["iw"]), "data_width": VInt(32, False, dw),
                                 "data": VAdt(SIMPL, variant(prog, SIMPL, var), (d, explicit_map(st, items)))})


MAKE_DENSE = ARR + "::make_dense"


def md_setup(rev):
    def setup(I, env, st, eng):
        iw, N, dw, E, k = dense_shape(I, env, st, I.path, 25)
        n = 2
        idx = [lin.new_atom("x%d" % i, 0, (1 << 25) - 1) for i in range(n)]
        for a, b in zip(idx, idx[1:]):
            st.add(b - a - 1)
        st.add(N - 1 - idx[-1])
        env["idx"] = idx
        st.mem[REC] = wrap_array(eng.P, sparse_for(I, env, st, eng.P, I.path, "default", [("s%d" % i, x) for i, x in enumerate(idx)]), "Sparse")
        env["jv"] = index_value(I, env, st, "j", iw, N)
        if rev:
            st.mem[("rev",)] = True
    return setup


def md_check(c):
    st, env = c.st, c.env
    dw = st.norm(env["dw"])
    for i, x in enumerate(env["idx"]):
        if st.decide_eq(env["j"] - x):
            return c.bv(st.ret, dw, [(ZERO, dw, c.src("s%d" % i))], "stored value")
    c.bv(st.ret, dw, [(ZERO, dw, c.src("default"))], "default value")


V = ["convert"]
for _r in (False, True):
    Chain("make_dense" + ("_reversed" if _r else ""), [(MAKE_DENSE, on_rec()), (SELECT, on_rec("j"))], md_check, V, receivers=REPS, setup=md_setup(_r))


def is_dense_check(c):
    c.need("value", "is_dense", c.truth(c.st.mem[("res", 1)]), lambda m: "is_dense() is false after make_dense()")
    c.need("value", "is_sparse", not c.truth(c.st.mem[("res", 2)]), lambda m: "is_sparse() is true after make_dense()")


Chain("make_dense_kind", [(MAKE_DENSE, on_rec()), (ARR + "::is_dense", on_rec()), (ARR + "::is_sparse", on_rec())], is_dense_check, V,
      receivers=("u8", "big2"), setup=md_setup(False))
Chain("make_dense_again", [(MAKE_DENSE, on_rec()), (SELECT, on_rec("j"))],
      lambda c: c.bv(c.st.ret, c.st.norm(c.env["dw"]), old_dense(c, c.env["j"]), "value"), V, receivers=REPS, setup=dense_setup("j"))


def dense_small(names, idx=(), kind="ArrayValue"):
    """dense arrays of 2 or 4 elements"""
    def setup(I, env, st, eng):
        iw, N, dw, E, k = dense_shape(I, env, st, I.path)
        for n in names:
            v = dense_value(I, env, st, eng.P, I.path, n)
            for i in range(1 << iw.c):
                fits(st, env, L(i), n)
            st.mem[(n,)] = wrap_array(eng.P, v, "Dense")
        for n in idx:
            env[n + "v"] = index_value(I, env, st, n, iw, N)
    return setup


TO_SPARSE = "<%s as core::convert::From<%s>>::from" % (SPARSE, ARR)


def move_dense(I, env, st, eng):
    return [st.mem[("arr",)]]


def ts_check(c):
    st, env = c.st, c.env
    dw = st.norm(env["dw"])
    for v in range(1 << env["iw"].c):
        if st.decide_eq(env["j"] - v):
            return c.bv(st.ret, dw, [(ZERO, dw, ident(("in", "arr"), L(v * env["E"])))], "element")


IWS = [{"iw": 1}, {"iw": 2}]
_steps = [(TO_SPARSE, move_dense), (SSELECT, on_result("j"))]
Chain("to_sparse", _steps, ts_check, V, receivers=("bit", "u64"), setup=dense_small(("arr",), ("j",)), shapes=IWS, limit=1000000)
Chain("to_sparse_two", _steps, ts_check, V, receivers=("u8", "big3"), setup=dense_small(("arr",), ("j",)), shapes=IWS[:1], limit=1000000)
Chain("to_sparse_wide", _steps, ts_check, V, receivers=("big2",), setup=dense_small(("arr",), ("j",)), shapes=IWS[:1], deep=IWS[1:], limit=1000000)


# arrays of every size whose elements are all the same
def uniform_select(I, env, st, eng):
    st.mem[REC] = st.mem[("res", 1)]
    return [VRef(REC), env["jv"]]


Chain("to_sparse_uniform", [(NEWD, new_args), (TO_SPARSE, lambda I, env, st, eng: [st.mem[("res", 0)]]), (SSELECT, uniform_select)],
      check_default, V, receivers=REPS, setup=new_setup)


# the outcome does not depend on the order of a hash table
def reverse_arr(I, env, st, eng):
    st.mem[("rev",)] = True
    return [st.mem[("arr",)]]


def default_of(i):
    def args(I, env, st, eng):
        st.mem[("sp", i)] = st.mem[("res", i)]
        return [VRef(("sp", i))]
    return args


def same_default(c):
    st, dw = c.st, c.st.norm(c.env["dw"])
    w, rid = c.bv_parts(st.mem[("res", 1)])[:2]
    c.bv(st.ret, dw, st.read_flat(rid, ZERO, dw), "default value with another hash table order")


Chain("to_sparse_order", [(TO_SPARSE, move_dense), (SPARSE + "::default", default_of(0)), (TO_SPARSE, reverse_arr), (SPARSE + "::default", default_of(2))],
      same_default, V, receivers=REPS, setup=dense_small(("arr",)), shapes=IWS[:1], limit=1000000)


# a sparse array is handed through
def sp_setup(I, env, st, eng):
    dense_shape(I, env, st, I.path)
    keys = [("s%d" % i, v) for i, v in enumerate((0, 2))]
    st.mem[("arr",)] = wrap_array(eng.P, sparse_for(I, env, st, eng.P, I.path, "default", keys), "Sparse")
    env["jv"] = index_value(I, env, st, "j", env["iw"], env["N"])


def sp_check(c):
    st, env = c.st, c.env
    dw = st.norm(env["dw"])
    for i, x in enumerate((0, 2)):
        if st.decide_eq(env["j"] - x):
            return c.bv(st.ret, dw, [(ZERO, dw, c.src("s%d" % i))], "stored value")
    c.bv(st.ret, dw, [(ZERO, dw, c.src("default"))], "default value")


Chain("to_sparse_again", _steps, sp_check, V, receivers=REPS, setup=sp_setup, shapes=IWS[1:])


# ---------------------------------------------------------------- equality, C17
EQ, IS_EQ = "<%s as core::cmp::PartialEq>::eq" % ARR, ARR + "::is_equal"


def sparse_small(I, env, st, prog, name):
    """a sparse array; the bits of shape[name] tell which indices are stored"""
    rep = I.path
    keys = [("%s%d" % (name, i), i) for i in range(1 << env["iw"].c) if (I.shape[name] >> i) & 1]
    return wrap_array(prog, sparse_for(I, env, st, prog, rep, name + "d", keys), "Sparse")


def full_elements(I, env, st, eng):
    """two dense arrays of any size whose elements fill their storage"""
    dense_shape(I, env, st, I.path)
    st.add(env["dw"] - env["E"])
    for n in "ab":
        st.mem[(n,)] = wrap_array(eng.P, dense_value(I, env, st, eng.P, I.path, n), "Dense")


def full_check(opt):
    def check(c):
        st, env = c.st, c.env
        r = st.ret
        if opt:
            r = c.deref(r)
            c.need("value", "same type", isinstance(r, VAdt) and r.variant == 1, lambda m: "is_equal() is None for arrays of the same type")
            r = r.fields[0]
        got = c.truth(r)
        d = f_apply(lambda p, q: p ^ q, ident(("in", "a")), ident(("in", "b")))
        n = st.norm(env["N"] * env["E"])
        want = st.decide_cond(st.rz_norm(d, ZERO, n))

        def bad(m):
            w = all(m.src(d, b) == 0 for b in range(m.lin(n)))
            return None if w == got else "is %s for arrays that are %s" % (got, "equal" if w else "different")
        c.need("value", "equality", got == want, bad)
    return check


def eq_setup(kinds):
    def setup(I, env, st, eng):
        dense_shape(I, env, st, I.path)
        for n, k in zip("ab", kinds):
            if k == "d":
                v = wrap_array(eng.P, dense_value(I, env, st, eng.P, I.path, n), "Dense")
                for i in range(1 << env["iw"].c):
                    fits(st, env, L(i), n)
            else:
                v = sparse_small(I, env, st, eng.P, n)
            st.mem[(n,)] = v
        env["kinds"] = kinds
    return setup


def eq_args(I, env, st, eng):
    return [VRef(("a",)), VRef(("b",))]


def element(c, n, i):
    """element i of array n, bit 0 at 0"""
    env = c.env
    if env["kinds"]["ab".index(n)] == "d":
        return ident(("in", n), L(i * env["E"]))
    return ident(("in", "%s%d" % (n, i) if (c.I.shape[n] >> i) & 1 else n + "d"))


def eq_check(opt):
    def check(c):
        st, env = c.st, c.env
        dw = st.norm(env["dw"])
        r = st.ret
        if opt:
            r = c.deref(r)
            c.need("value", "same type", isinstance(r, VAdt) and r.variant == 1, lambda m: "is_equal() is None for arrays of the same type")
            r = r.fields[0]
        got = c.truth(r)
        want = True
        diffs = []
        for i in range(1 << env["iw"].c):
            if env["E"] == 1 and env["kinds"] in ("ds", "sd"):
                for n in "ab":
                    st.decide_cond(st.rz_norm(element(c, n, i), ZERO, ONE))
            d = f_apply(lambda p, q: p ^ q, element(c, "a", i), element(c, "b", i))
            diffs.append(d)
            if d != 0 and not st.decide_cond(st.rz_norm(d, ZERO, dw)):
                want = False
                break

        def bad(m):
            w = all(all(m.src(d, b) == 0 for b in range(m.lin(dw))) for d in
                    [f_apply(lambda p, q: p ^ q, element(c, "a", i), element(c, "b", i)) for i in range(1 << env["iw"].c)])
            return None if w == got else "is %s for arrays that are %s" % (got, "equal" if w else "different")
        c.need("value", "equality", got == want, bad)
    return check


Q = ["areq"]
_sp = [{"iw": 1, "a": x, "b": y} for x in range(4) for y in range(4)]
_sp2 = [{"iw": 2, "a": x, "b": y} for x, y in ((0, 15), (3, 12), (7, 8), (5, 10), (15, 15), (6, 13), (0, 1), (9, 9))]
for _o, _fn in ((True, IS_EQ), (False, EQ)):
    _n = "is_equal" if _o else "eq"
    Chain("dense_any_size_" + _n, [(_fn, eq_args)], full_check(_o), Q, receivers=("bit", "u8", "u64", "big2", "big3"), setup=full_elements)
    Chain("dense_" + _n, [(_fn, eq_args)], eq_check(_o), Q, receivers=REPS, setup=eq_setup("dd"), shapes=IWS, limit=1000000)
    Chain("sparse_" + _n, [(_fn, eq_args)], eq_check(_o), Q, receivers=("bit", "u8", "u64", "big2"), setup=eq_setup("ss"), shapes=_sp, deep=_sp2, limit=1000000)
    for _k in ("ds", "sd"):
        Chain("mixed_%s_%s" % (_k, _n), [(_fn, eq_args)], eq_check(_o), Q, receivers=REPS, setup=eq_setup(_k),
              shapes=[{"iw": 1, "a": x, "b": x} for x in range(4)], deep=[{"iw": 2, "a": x, "b": x} for x in (0, 6, 11, 15)], limit=1000000)


# equality after a history of operations on the first array
def hist_setup(kinds, data=("v",)):
    base = eq_setup(kinds)

    def setup(I, env, st, eng):
        base(I, env, st, eng)
        if "i" in I.shape:
            env["i"] = L(I.shape["i"])
            rid = st.new_region(eb=64, length=ONE, base=("src", ("num", env["i"])))
            env["iv"] = VAdt(REF, 0, (VInt(32, False, env["iw"]), VSlice(rid, ZERO, ONE)))
        else:
            env["iv"] = index_value(I, env, st, "i", env["iw"], env["N"])
        for n in data:
            data_value(I, env, n, env["dw"], L(env["k"]))
    return setup


def a_store(data):
    def args(I, env, st, eng):
        return [VRef(("a",)), env["iv"], env[data]]
    return args


def hist_check(opt, data, start=None, other=None):
    """a holds its elements (or start), with `data` at index i; b holds its elements (or `other` at index i)"""
    def check(c):
        st, env = c.st, c.env
        dw = st.norm(env["dw"])
        r = st.ret
        if opt:
            r = c.deref(r)
            c.need("value", "same type", isinstance(r, VAdt) and r.variant == 1, lambda m: "is_equal() is None for arrays of the same type")
            r = r.fields[0]
        got = c.truth(r)

        def pair(i, at):
            a = c.src(data) if at else start(c, i) if start else element(c, "a", i)
            b = c.src(other) if at and other else element(c, "b", i)
            return a, b
        want = True
        for i in range(1 << env["iw"].c):
            x, y = pair(i, st.decide_eq(env["i"] - i))
            if env["E"] == 1:
                for z in (x, y):
                    st.decide_cond(st.rz_norm(z, ZERO, ONE))
            d = f_apply(lambda p, q: p ^ q, x, y)
            if d != 0 and not st.decide_cond(st.rz_norm(d, ZERO, dw)):
                want = False
                break

        def bad(m):
            w = all(m.src(x, b) == m.src(y, b) for i in range(1 << env["iw"].c) for x, y in [pair(i, m.lin(env["i"]) == i)] for b in range(m.lin(dw)))
            return None if w == got else "is %s for arrays that are %s" % (got, "equal" if w else "different")
        c.need("value", "equality", got == want, bad)
    return check


_hist = [{"iw": 1, "a": x, "b": y} for x in range(4) for y in ((0, 3) if x in (0, 3) else (0, 1, 2))]
for _o, _fn in ((True, IS_EQ), (False, EQ)):
    _n = "is_equal" if _o else "eq"
    Chain("sparse_store_" + _n, [(STORE, a_store("v")), (_fn, eq_args)], hist_check(_o, "v"), Q, receivers=("u8", "u64", "big2"),
          setup=hist_setup("ss"), shapes=_hist, limit=1000000)
    Chain("sparse_store2_" + _n, [(STORE, a_store("v")), (STORE, a_store("u")), (_fn, eq_args)], hist_check(_o, "u"), Q, receivers=("u64", "big2"),
          setup=hist_setup("ss", ("v", "u")), shapes=_hist[:2] + _hist[-2:], limit=1000000)
    Chain("dense_store_" + _n, [(STORE, a_store("v")), (_fn, eq_args)], hist_check(_o, "v"), Q, receivers=REPS,
          setup=hist_setup("dd"), shapes=[{"iw": 1, "i": x} for x in range(2)], limit=1000000)
    Chain("mixed_store_" + _n, [(STORE, a_store("v")), (_fn, eq_args)], hist_check(_o, "v"), Q, receivers=REPS,
          setup=hist_setup("sd"), shapes=[{"iw": 1, "a": x, "b": 0, "i": y} for x in range(4) for y in range(2)], limit=1000000)
