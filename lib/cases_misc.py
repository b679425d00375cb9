"""Fixed point conversion, C19."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Case, Chain, OPS, MOPS, OWNED, un, mk, bi2, some, zero_known, to_signed, no_panic, fu_any, au_any
import cases_arr as arr

FRAC = "$Fraction"


def frac_in(I, env):
    a = un(I, env)
    v, x = I.nat("fw", 32, 0)
    I.st.add(I.bv["a"][0] - x)
    env["fw"] = x
    return a + [v]


def frac_check(signed):
    def check(c):
        st, fw, w = c.st, c.env["fw"], c.W("a")
        neg = signed and c.sign("a")
        small = not st.decide(w - 65)

        def fits():
            if st.decide(fw - 64):
                return False
            if small:
                return True
            return False if neg else zero_known(c, "a", L(64))

        def oracle(m):
            ww = m.lin(w)
            a = m.inputs["a"]
            v = to_signed(a, ww) if signed else a
            return m.lin(fw) < 64 and (a < 1 << 64 if v >= 0 else ww <= 64)
        got = c.variant(st.ret)
        if neg and not small and got.variant == 1:
            raise Unsupported("negative number of more than 64 bits")    # may be None or exact
        v = some(c, (fits, oracle), "fraction")
        if v is None:
            return
        v = c.variant(v)
        if v.path != FRAC:
            raise Unsupported("fraction %r" % (v,))
        num, den = (c.eng.word(st, x) for x in v.fields)
        sg = v.variant
        one = [(ZERO, fw, 0), (fw, fw + 1, 1), (fw + 1, L(64), 0)]
        x = st.num(Bits(64, [(ZERO, L(64), c.src("a"))]))
        mags = [ident(("num", -x)), ident(("num", -st.num_atom(("in", "a"))))] if neg else [c.src("a")]

        def same(act, exp):
            return all(same_src(st, *t) for t in zip_flat(st, act.segs, exp))
        exact = same(den, one) and any(same(num, [(ZERO, w if small else L(64), s)] + ([(w, L(64), 0)] if small else [])) for s in mags)

        def word(m, b):
            r = 0
            for l, h, s in b.segs:
                for i in range(m.lin(l), m.lin(h)):
                    r |= m.src(s, i) << i
            return r

        def bad(m):
            n, d, f, ww = word(m, num), word(m, den), m.lin(fw), m.lin(w)
            a = to_signed(m.inputs["a"], ww) if signed else m.inputs["a"]
            got = n if sg == 2 else -n
            return None if sg != 1 and d and got << f == a * d else "%s%d/%d for the bits of %d with %d fraction bits" % ("" if sg == 2 else "-", n, d, a, f)
        c.need("value", "fraction", exact and sg == (0 if neg else 2), bad)
    return check


Case("to_unsigned_fixed_point", OPS + "to_unsigned_fixed_point", frac_in, frac_check(False), ["fixed"])
Case("to_signed_fixed_point", OPS + "to_signed_fixed_point", frac_in, frac_check(True), ["fixed"])


# ---------------------------------------------------------------- misuse is rejected (builds with debug assertions), C20
def ends(c):
    """panicking is the specified outcome; a call that never returns is not"""
    if c.st.status == "panic":
        c.ok("reject")
        return
    no_panic(c)


def reject(what, valid):
    """a returning trace satisfies the precondition; valid(c) may partition"""
    def check(c):
        v = valid(c)
        c.need("reject", what, v is True, lambda m: "returns although " + what)
    return check


def same_width(c):
    st = c.st
    return not st.decide(c.W("a") - c.W("b") - 1) and not st.decide(c.W("b") - c.W("a") - 1)


D = ("debug",)
MISMATCH = "the operands have different widths"
for _n in ("and", "or", "xor", "add", "sub", "mul", "shift_left", "shift_right", "arithmetic_shift_right", "is_equal", "is_not_equal",
           "is_greater", "is_greater_or_equal", "is_less", "is_less_or_equal",
           "is_greater_signed", "is_greater_or_equal_signed", "is_less_signed", "is_less_or_equal_signed"):
    Case("reject_" + _n, OPS + _n, bi2, reject(MISMATCH, same_width), ["misuse"], abnormal=ends, configs=D)


def assign2(own):
    def build(I, env):
        return [mk(I, "a"), I.obj(I.recv("b", path=OWN)) if own else I.ref("b")]
    return build


Case("reject_assign", MOPS + "assign", assign2(False), reject(MISMATCH, same_width), ["misuse"], abnormal=ends, configs=D)
Case("reject_assign_owned", MOPS + "assign", assign2(True), reject(MISMATCH, same_width), ["misuse"], abnormal=ends, configs=D)


def slice_any(I, env):
    a = mk(I, "a")
    lo, l = I.nat("lsb", 32, 0, (1 << 32) - 1)
    hi, h = I.nat("msb", 32, 0, (1 << 32) - 1)
    env["lo"], env["hi"] = l, h
    return [a, hi, lo]


def slice_valid(c):
    st = c.st
    return st.decide(c.W("a") - 1 - c.env["hi"]) and st.decide(c.env["hi"] - c.env["lo"])


Case("reject_slice", OPS + "slice", slice_any, reject("msb is below lsb or not below the width", slice_valid), ["misuse"], abnormal=ends, configs=D)


def pos_any(I, env):
    a = mk(I, "a")
    p, env["pos"] = I.nat("pos", 32, 0, (1 << 32) - 1)
    return [a, p]


def pos_valid(c):
    return c.st.decide(c.W("a") - 1 - c.env["pos"])


for _n in ("set_bit", "clear_bit"):
    Case("reject_" + _n, MOPS + _n, pos_any, reject("the position is not below the width", pos_valid), ["misuse"], abnormal=ends, configs=D)


def fw_any(I, env):
    a = mk(I, "a")
    v, env["pos"] = I.nat("fw", 32, 0, (1 << 32) - 1)
    return [a, v]


def fw_valid(c):
    return c.st.decide(c.W("a") - c.env["pos"])


for _n in ("to_unsigned_fixed_point", "to_signed_fixed_point"):
    Case("reject_" + _n, OPS + _n, fw_any, reject("there are more fraction bits than bits", fw_valid), ["misuse"], abnormal=ends, configs=D)


def value_fits(signed):
    def valid(c):
        st = c.st
        w = c.st.norm(c.env["w"]) if "w" in c.env else c.W("a")
        if st.decide(w - 64):
            return True
        s = ident(("in", "x"))
        f = f_apply(lambda a, b: a ^ b, s, bit_const(s, w - 1)) if signed else s
        return st.decide_cond(st.rz_norm(f, w, L(64)))
    return valid


for _s, _t in ((False, "u64"), (True, "i64")):
    Case("reject_from_" + _t, OWNED + "from_" + _t, fu_any(_s), reject("the value does not fit", value_fits(_s)), ["misuse"], abnormal=ends, configs=D)
    Case("reject_assign_from_" + _t, MOPS + "assign_from_" + _t, au_any(_s), reject("the value does not fit", value_fits(_s)), ["misuse"],
         abnormal=ends, configs=D)


# arrays: index and data of the wrong width
def rej_setup(sparse, wrong):
    def setup(I, env, st, eng):
        (arr.sparse_setup if sparse else arr.dense_setup)("i", data=("v",))(I, env, st, eng)
        w, n = I.width("x")
        env["v" if wrong == "data" else "iv"] = I.ref("x", w=w, n=n)
        env["ref"] = env["dw" if wrong == "data" else "iw"]
    return setup


def array_valid(c):
    st, x = c.st, c.I.bv["x"][0]
    return not st.decide(x - c.env["ref"] - 1) and not st.decide(c.env["ref"] - x - 1)


for _k, _r, _sel, _sto in (("dense", arr.REPS, arr.SELECT, arr.STORE), ("sparse", arr.SR, arr.SELECT, arr.STORE)):
    Chain("reject_%s_select" % _k, [(_sel, arr.call("i"))], reject("the index has another width", array_valid), ["misuse"], receivers=_r,
          setup=rej_setup(_k == "sparse", "index"), abnormal=ends, configs=D)
    for _x in ("index", "data"):
        Chain("reject_%s_store_%s" % (_k, _x), [(_sto, arr.call("i", "v"))], reject("the %s has another width" % _x, array_valid), ["misuse"],
              receivers=_r, setup=rej_setup(_k == "sparse", _x), abnormal=ends, configs=D)


# ---------------------------------------------------------------- serialization, C21
import serde_model  # noqa: E402
from dom import VSym  # noqa: E402


def same_value(c, a, b, what):
    """the value a read back equals the value b that was written"""
    st = c.st
    a, b = c.deref(a), c.deref(b)
    if isinstance(b, VAdt):
        if not isinstance(a, VAdt) or a.path != b.path:
            raise Unsupported("%s is %r" % (what, a))
        c.need("value", what + " variant", a.variant == b.variant, lambda m: "%s is read back as another variant" % what)
        names = [f["name"] for f in c.eng.P.adts[b.path]["variants"][b.variant]["fields"]] if b.path in c.eng.P.adts else None
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            same_value(c, x, y, "%s.%s" % (what, names[i] if names else i))
        return
    if isinstance(b, VInt) and isinstance(a, VInt):
        if a == b:
            return c.ok("value")
        if isinstance(a.rep, Lin) and isinstance(b.rep, Lin):
            return c.lin_eq("value", what, a.rep, b.rep)
        return c.bits("value", what, c.eng.word(st, a), c.eng.word(st, b))
    if isinstance(b, VMap):
        if a == b:
            return c.ok("value")
        raise Unsupported("table")
    if isinstance(b, VVec):
        if a == b:
            return c.ok("value")
        x, y = (c.eng.models.slice_of(c.eng, st, v) for v in (a, b))
        eb = st.regions[y.rid].eb
        if eb is None or st.regions[x.rid].eb != eb:
            raise Unsupported("elements")
        c.lin_eq("value", what + " length", x.len, y.len)
        o, p = x.start * eb, y.start * eb
        fa = [(l - o, h - o, f_shift(s, -o)) for l, h, s in st.read_flat(x.rid, o, o + y.len * eb)]
        fb = [(l - p, h - p, f_shift(s, -p)) for l, h, s in st.read_flat(y.rid, p, p + y.len * eb)]
        return c.flat("value", what, fa, fb)
    raise Unsupported("value %r" % (b,))


def round_trip(c):
    ser, de = (c.variant(c.st.mem[("res", i)]) for i in (0, 1))
    c.need("value", "serialization succeeds", ser.variant == 0, lambda m: "serialize returns an error")
    c.need("value", "deserialization succeeds", de.variant == 0, lambda m: "deserialize returns an error for a serialized value")
    same_value(c, de.fields[0], c.st.mem[REC], "value")


def ser_args(I, env, st, eng):
    return [VRef(REC), VSym(("serializer",))]


def de_args(I, env, st, eng):
    r = st.mem[("res", 0)]
    if r.variant != 0:
        return [VSym(("deserializer", ("error",)))]
    return [VSym(("deserializer", r.fields[0].term[1]))]


REC = arr.REC


def serde_setup(kind, mode):
    def setup(I, env, st, eng):
        st.mem[serde_model.MODE] = VSym(mode)
        if kind == "bv":
            w, n = lin.new_atom("nser", 1, 1 << 25), None
            n, w = w, w * 64 - 64 + lin.new_atom("rser", 1, 64)
            rid, w, n = I.words("a", w, n)
            st.mem[REC] = arr.own_value(eng.P, w, rid)
        elif kind.startswith("dense"):
            arr.dense_setup()(I, env, st, eng)
        else:
            arr.sparse_setup()(I, env, st, eng)
        if kind.endswith("_inner"):
            st.mem[REC] = c_inner(st.mem[REC])
    return setup


def c_inner(v):
    """the dense or sparse array inside of an array value"""
    return v.fields[0].fields[0]


BVP, _D, _S = OWN, arr.DENSE, arr.SPARSE
for _m in ("map", "seq"):
    for _k, _p, _rs in (("bv", OWN, ("-",)), ("dense", arr.ARR, arr.REPS), ("dense_inner", _D, arr.REPS), ("sparse", arr.ARR, arr.SR), ("sparse_inner", _S, arr.SR)):
        Chain("serde_%s_%s" % (_k, _m), [("impl serde_core::ser::Serialize serialize " + _p, ser_args),
                                         ("impl serde_core::de::Deserialize deserialize " + _p, de_args)],
              round_trip, ["serde"], receivers=_rs, setup=serde_setup(_k, _m))
