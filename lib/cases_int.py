"""Specification of the value interner: arbitrary valid interner states (any history of earlier values), C13."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Chain, no_panic

INT = "bv::indexed::ValueInterner"
IDX = "bv::indexed::BitVecValueIndex"
NCONST = 8


def fields(prog, path):
    return [f["name"] for f in prog.adts[path]["variants"][0]["fields"]]


def key_segs(eng, st, k):
    """bits of a map key: one word, or the words of a buffer"""
    if isinstance(k, VInt):
        b = eng.word(st, k)
        return L(1), b.segs
    s = eng.models.slice_of(eng, st, k)
    o = s.start * 64
    return s.len, [(l - o, h - o, f_shift(x, -o)) for l, h, x in st.read_flat(s.rid, o, o + s.len * 64)]


def hit(env):
    """an entry of the small or large map: the stored index refers to words that equal the key"""
    def value(eng, st, k, j):
        n, segs = key_segs(eng, st, k)
        kind = "s" if isinstance(k, VInt) else "l"
        memo = lin.TAB.memo
        i = memo.get(("hit", kind, j))
        if i is None:
            i = memo[("hit", kind, j)] = lin.new_atom("i%s%d" % (kind, j), NCONST)
        if not st.add(st.norm(env["n"] - i - n)):
            raise Unsupported("no such entry")
        for l, h, x in segs:
            d = f_apply(lambda p, q: p ^ q, ident(("in", "store"), i * 64), x)
            st.add_fact(st.rz_norm(d, l, h), True)
        return VInt(32, False, i)
    return value


def valid_interner(I, env, st, prog):
    """words 0..7 are the constants, further words and the two maps are arbitrary but consistent"""
    n = lin.new_atom("nstore", NCONST, 1 << 25) if I.shape is None else L(10)
    I.W.inputs["store"] = n * 64
    ws = tuple(("flat", L(64 * w + b), L(64 * w + b + 1), (w >> b) & 1) for w in range(NCONST) for b in range(3)) + \
        tuple(("flat", L(64 * w + 3), L(64 * w + 64), 0) for w in range(NCONST))
    rid = st.new_region(eb=64, length=n, base=("src", ("in", "store")), writes=ws)
    env["n"], env["rid"] = n, rid
    I.W.maps["small"] = I.W.maps["large"] = hit(env)
    d = {"words": VVec(rid, "vec"), "small": VMap(("m", "small", ())), "large": VMap(("m", "large", ()))}
    st.mem[("interner",)] = VAdt(INT, 0, tuple(d[f] for f in fields(prog, INT)))
    return VRef(("interner",))


def given(*names, words=None):
    """an interner and the values to be interned"""
    def setup(I, env, st, eng):
        valid_interner(I, env, st, eng.P)
        for n in names:
            if words is None:
                env[n] = I.ref(n)
            else:
                k = L(1) if words == 1 else L(2) if I.shape is not None else lin.new_atom("n" + n, 2, 1 << 25)
                env[n] = I.ref(n, w=k * 64 - 64 + lin.new_atom("r" + n, 1, 64), n=k)
    return setup


def get(name):
    return lambda I, env, st, eng: [VRef(("interner",)), env[name]]


def index_of(c, v, guess=None):
    d = dict(zip(fields(c.eng.P, IDX), c.deref(v).fields))
    if guess is not None:
        # the index word is this constant on the trace
        b = c.eng.word(c.st, d["index"])
        k = [(L(i), L(i + 1), (guess >> i) & 1) for i in range(3)] + [(L(3), L(b.w), 0)]
        if all(same_src(c.st, *x) for x in zip_flat(c.st, b.segs, k)):
            return c.eng.num(c.st, d["width"]), L(guess)
    return c.eng.num(c.st, d["width"]), c.eng.num(c.st, d["index"])


def words_of(c):
    d = dict(zip(fields(c.eng.P, INT), c.deref(c.st.mem[("interner",)]).fields))
    return d["words"].rid


def read_back(c, res, name, what):
    """the index denotes the interned value in the words of the interner"""
    st = c.st
    wa, k = c.W(name), st.norm(c.I.bv[name][1])
    if st.known(st.rz_norm(c.src(name), L(3), wa)) and st.eq0(k - 1):
        # at most a constant word: partition by its value
        v = 0
        for b in range(3):
            if st.decide(wa - b - 1) and not st.decide_cond(st.rz_norm(c.src(name), L(b), L(b + 1))):
                v |= 1 << b
        w, i = index_of(c, st.mem[("res", res)], v)
    else:
        w, i = index_of(c, st.mem[("res", res)])
    c.lin_eq("value", what + " width", w, wa)
    rid = words_of(c)
    n = st.norm(st.regions[rid].len)
    i = st.norm(i)

    def bad(m):
        x, y, z = m.lin(i), m.lin(k), m.lin(n)
        return None if x + y <= z else "%s: index %d with %d words in a store of %d words" % (what, x, y, z)
    c.need("value", what + " index in range", st.ge0(n - i - k) and st.ge0(i), bad)
    o = i * 64
    act = [(l - o, h - o, f_shift(x, -o)) for l, h, x in st.read_flat(rid, o, o + k * 64)]
    c.flat("value", what + " words", act, [(ZERO, k * 64, c.src(name))])


def append_only(c):
    st = c.st
    rid = words_of(c)
    n0 = st.norm(c.env["n"])
    n = st.norm(st.regions[rid].len)
    c.need("value", "number of words", st.ge0(n - n0), lambda m: None if m.lin(n) >= m.lin(n0) else "words are removed")
    c.flat("value", "existing words", [x for x in st.read_flat(rid, L(NCONST * 64), n0 * 64)],
           [(L(NCONST * 64), n0 * 64, c.src("store"))])
    c.flat("value", "constant words", [x for x in st.read_flat(rid, ZERO, L(NCONST * 64))],
           [(L(64 * w + b), L(64 * w + b + 1), (w >> b) & 1 if b < 3 else 0) for w in range(NCONST) for b in range(64)])


GET = INT + "::get_index"


def check_one(c):
    read_back(c, 0, "a", "index")
    append_only(c)


def same_index(c, x, y):
    wx, ix = index_of(c, c.st.mem[("res", x)])
    wy, iy = index_of(c, c.st.mem[("res", y)])
    c.lin_eq("value", "index of the second request", iy, ix)
    c.lin_eq("value", "width of the second request", wy, wx)


def check_twice(c):
    same_index(c, 0, 1)
    read_back(c, 0, "a", "index")
    append_only(c)


def check_aba(c):
    same_index(c, 0, 2)
    read_back(c, 0, "a", "first index")
    read_back(c, 1, "b", "second index")


def check_ab(c):
    """both stay readable"""
    read_back(c, 0, "a", "first index")
    read_back(c, 1, "b", "second index")
    append_only(c)


Chain("intern", [(GET, get("a"))], check_one, ["interner"], setup=given("a"))
Chain("intern_again", [(GET, get("a")), (GET, get("a"))], check_twice, ["interner"], setup=given("a"))
Chain("intern_two", [(GET, get("a")), (GET, get("b"))], check_ab, ["interner"], setup=given("a", "b"))
Chain("intern_aba", [(GET, get("a")), (GET, get("b")), (GET, get("a"))], check_aba, ["interner"], setup=given("a", "b"))


# ---------------------------------------------------------------- a new interner, and the constants
def check_new(c):
    st = c.st
    d = dict(zip(fields(c.eng.P, INT), c.deref(st.ret).fields))
    rid = d["words"].rid
    n = st.norm(st.regions[rid].len)
    c.lin_eq("value", "number of words", n, L(NCONST))
    c.flat("value", "constant words", st.read_flat(rid, ZERO, n * 64),
           [(L(64 * w + b), L(64 * w + b + 1), (w >> b) & 1 if b < 3 else 0) for w in range(NCONST) for b in range(64)])
    c.need("value", "no entries", d["small"].term == ("m", None, ()) and d["large"].term == ("m", None, ()), lambda m: "not empty")


Chain("interner_new", [(INT + "::new", lambda I, env, st, eng: [])], check_new, ["interner"])
Chain("interner_default", [("<%s as core::default::Default>::default" % INT, lambda I, env, st, eng: [])], check_new, ["interner"])


def res_arg(I, env, st, eng):
    return [st.mem[("res", 0)]]


def check_const(val):
    def check(c):
        st = c.st
        w = c.W("a")

        def prove():
            if val == 0:
                return st.decide_cond(st.rz_norm(c.src("a"), ZERO, w))
            return not st.decide_cond(st.rz_norm(c.src("a"), ZERO, ONE)) and st.decide_cond(st.rz_norm(c.src("a"), ONE, w))
        got = c.truth(st.ret)
        p = prove()
        c.need("value", "result", got == p,
               lambda m: None if got == (m.inputs["a"] == val) else "is %s for an index of the value %d" % (got, m.inputs["a"]))
    return check


for _n, _v in (("is_zero", 0), ("is_one", 1)):
    Chain("interner_" + _n, [(GET, get("a")), (INT + "::" + _n, res_arg)], check_const(_v), ["interner"], setup=given("a", words=1))
    Chain("interner_" + _n + "_wide", [(GET, get("a")), (INT + "::" + _n, res_arg)], check_const(_v), ["interner"], setup=given("a", words=2))
