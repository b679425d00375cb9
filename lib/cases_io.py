"""Bytes, big integers, text."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Case, OPS, MOPS, OWNED, mk, un, no_panic, width_arg, inplace
from models import BI, SIGN


def slice_in(I, name, eb, lo=0, hi=1 << 20, fixed=None):
    """a slice of symbolic length; -> (VSlice, n)"""
    if I.shape is not None:
        n = L(I.shape.get(name, 2))
    else:
        n = lin.new_atom("n" + name, lo, hi)
    I.named.append(name)
    I.W.inputs[name] = n * eb
    rid = I.st.new_region(eb=eb, length=n, base=("src", ("in", name)))
    return VSlice(rid, ZERO, n), n


# ---------------------------------------------------------------- bytes, C08
def to_bytes_check(c):
    st, w = c.st, c.W("a")
    v = c.deref(st.ret)
    n = st.norm(st.regions[v.rid].len)

    def bad(m, n=n, w=w):
        return None if m.lin(n) == (m.lin(w) + 7) // 8 else "%d bytes for width %d" % (m.lin(n), m.lin(w))
    c.need("value", "byte count", st.ge0(n * 8 - w) and st.ge0(w + 7 - n * 8), bad)
    c.flat("value", "bytes", st.read_flat(v.rid, ZERO, n * 8), [(ZERO, w, c.src("a")), (w, n * 8, 0)])


Case("to_bytes_le", OPS + "to_bytes_le", un, to_bytes_check, ["bytes"])


def from_bytes_in(I, env):
    s, n = slice_in(I, "x", 8)
    w = width_arg(I, env)
    # no more bytes than storage
    q, r = I.st.divmod(env["w"] + 63, 64)
    I.st.add(q * 8 - n)
    env["n"] = n
    return [s, w]


def from_bytes_check(c):
    st = c.st
    w, n = st.norm(c.env["w"]), st.norm(c.env["n"])
    if st.decide(n * 8 - w):
        segs = [(ZERO, w, c.src("x"))]
    else:
        segs = [(ZERO, n * 8, c.src("x")), (n * 8, w, 0)]
    c.bv(st.ret, w, segs)


Case("from_bytes_le", OWNED + "from_bytes_le", from_bytes_in, from_bytes_check, ["bytes", "result"])


# ---------------------------------------------------------------- big integers
def big_digits(c, v):
    v = c.deref(v)
    if not (isinstance(v, VAdt) and v.path == BI):
        raise Unsupported("not a big integer: %r" % (v,))
    d = c.deref(v.fields[1])
    r = c.st.regions[d.rid]
    return v.fields[0], d.rid, c.st.norm(r.len * r.eb)


def big_value(c, rid, n, w, s, what):
    st = c.st

    def bad(m, n=n, w=w):
        return None if m.lin(n) >= m.lin(w) else "%d bits of digits for width %d" % (m.lin(n), m.lin(w))
    c.need("value", what + " digit count", st.ge0(n - w), bad)
    c.flat("value", what, st.read_flat(rid, ZERO, n), [(ZERO, w, s), (w, n, 0)])


def to_big_uint_check(c):
    sg, rid, n = big_digits(c, c.st.ret)
    big_value(c, rid, n, c.W("a"), c.src("a"), "unsigned big integer")


def to_big_int_check(c):
    st, w = c.st, c.W("a")
    sg, rid, n = big_digits(c, st.ret)
    neg = c.sign("a")
    got = c.variant(sg).variant == 0
    c.need("value", "sign", got == neg, lambda m: None if got == bool(m.inputs["a"] >> (m.lin(w) - 1)) else "sign is minus: %s" % got)
    if not neg:
        return big_value(c, rid, n, w, c.src("a"), "magnitude")
    wide = st.decide(w - 65)
    cands = [st.num_atom(("in", "a"))]
    if not wide:
        cands.insert(0, st.num(Bits(64, [(ZERO, L(64), c.src("a"))])))
    for i, x in enumerate(cands):
        t = dict(c.tally)
        try:
            return big_value(c, rid, n, w, ident(("num", -x)), "magnitude")
        except Fail:
            if i == len(cands) - 1:
                raise
            c.tally = t


Case("to_big_uint", OPS + "to_big_uint", un, to_big_uint_check, ["bigint"])
Case("to_big_int", OPS + "to_big_int", un, to_big_int_check, ["bigint"])


def big_in(sign):
    def build(I, env):
        s, n = slice_in(I, "x", 64, lo=1)
        if sign == 1:
            n = ZERO
            s = VSlice(s.rid, ZERO, ZERO)
        w = width_arg(I, env)
        env["n"] = n
        env["sign"] = sign
        if sign != 1:          # no leading zero digit
            I.st.add_fact(I.st.rz_norm(ident(("in", "x")), n * 64 - 64, n * 64), False)
        return [I.obj(VAdt(BI, 0, (VAdt(SIGN, sign, ()), s))), w]
    return build


def from_big_check(c):
    st = c.st
    w, n = st.norm(c.env["w"]), st.norm(c.env["n"])
    x = c.src("x")
    if c.env["sign"] == 0:
        wide = st.decide(w - 65)
        big = st.decide(n * 64 - w - 1)
        # the digits below the width
        if not st.decide(n - 1):
            return c.bv(st.ret, w, [(ZERO, w, 0)])
        cands = [st.num_atom(("in", "x"))]
        if not wide:
            cands.insert(0, st.num(Bits(64, [(ZERO, L(64), x)])))
            if not st.decide_eq(w - 64):
                cands.insert(0, st.num(Bits(64, [(ZERO, w, x), (w, L(64), 0)])))
        if c.I.shape is not None and n.is_const():
            cands += list(neg_words(c, n, w))
        for i, e in enumerate(cands):
            t = dict(c.tally)
            try:
                return c.bv(st.ret, w, e if isinstance(e, list) else [(ZERO, w, ident(("num", -e)))])
            except Fail:
                if i == len(cands) - 1:
                    c.tally = t
                    return c.bv(st.ret, w, [(ZERO, w, ident(("num", -cands[0])))])
                c.tally = t
    if st.decide(n * 64 - w):
        segs = [(ZERO, w, x)]
    else:
        segs = [(ZERO, n * 64, x), (n * 64, w, 0)]
    c.bv(st.ret, w, segs)


def neg_words(c, n, w):
    """fixed word counts: the words of -x, each as a number over the words of x; two spellings of a partial top word"""
    st, x = c.st, c.src("x")
    n = n.c
    nw = c.I.shape.get("a", 2)
    if "own" in c.env:
        nw = n + 1 if st.decide(w - 64 * n - 1) else n
    for masked in (True, False):
        E = ZERO
        for i in range(min(n, nw)):
            h = L(64)
            if masked and i == nw - 1 and st.decide_eq(w - 64 * nw) is False:
                h = w - 64 * i
            segs = [(ZERO, h, f_shift(x, L(-64 * i)))]
            if h != L(64):
                segs.append((h, L(64), 0))
            E = E - st.num(Bits(64, segs)) * (1 << (64 * i))
        segs = []
        for k in range(nw):
            segs.append((L(64 * k), w if k == nw - 1 else L(64 * k + 64), ident(("num", E), L(-64 * k))))
            E = st.divmod(E, 1 << 64)[0]
        yield segs


Case("from_big_uint", OWNED + "from_big_uint", big_in(2), from_big_check, ["bigint", "result"])
Case("from_big_uint_zero", OWNED + "from_big_uint", big_in(1), from_big_check, ["bigint", "result"])
Case("from_big_int_zero", OWNED + "from_big_int", big_in(1), from_big_check, ["bigint", "result"])
Case("from_big_int_pos", OWNED + "from_big_int", big_in(2), from_big_check, ["bigint", "result"])
Case("from_big_int_neg", OWNED + "from_big_int", big_in(0), from_big_check, ["bigint", "result"])


# ---------------------------------------------------------------- text, C09
def text(c):
    v = c.deref(c.st.ret)
    if isinstance(v, VStr):
        import models
        s = models.str_slice(c.eng, c.st, v)
        return s.rid, c.st.norm(s.start), c.st.norm(s.len)
    return v.rid, ZERO, c.st.norm(c.st.regions[v.rid].len)


def at(c, rid, i):
    """the character at a symbolic index, as a word"""
    return c.st.read_word(rid, c.st.norm(i))


def digit_obl(c, rid, start, ndig, k, src_of, what):
    """the ndig characters from start are the base-2^k digits of src, most significant first: checked at one arbitrary index"""
    st = c.st
    if not st.decide(ndig - 1):
        return
    j = c.env.setdefault(("j", what), None)      # one index, also when the trace is partitioned further
    if j is None:
        j = c.env[("j", what)] = lin.new_atom("j", 0)
    st.add(ndig - 1 - j)
    w, s = src_of
    lo = st.norm((ndig - 1 - j) * k)
    h = L(k) if st.decide(w - lo - k) else w - lo          # the leading digit may be partial
    st.add(-j if st.decide(-j) else j - 1)
    lo, h = st.norm(lo), st.norm(h)
    ch = at(c, rid, start + j)
    if k == 1:
        exp = [(ZERO, ONE, bit_const(s, lo)), (ONE, L(4), 0), (L(4), L(6), 1), (L(6), L(8), 0)]
    else:
        v = Bits(32, [(ZERO, h, f_shift(s, -lo)), (h, L(32), 0)])
        exp = [(ZERO, L(7), ident(("mem", ("digitchar", v)))), (L(7), L(8), 0)]
    exp = Bits(8, exp)

    def bad(m):
        x, y = m.bits(ch), m.bits(exp)
        return None if x == y else "%s: character %d of %d is %r, specified %r" % (what, m.lin(j), m.lin(ndig), chr(x), chr(y))
    ok = ch.w == 8 and all(same_src(st, *x) for x in zip_flat(st, ch.segs, exp.segs))
    c.need("value", what + " digit", ok, bad)


def len_obl(c, n, e, what):
    c.lin_eq("value", what + " length", n, e)


def to_bit_str_check(c):
    rid, o, n = text(c)
    w = c.W("a")
    len_obl(c, n, w, "bit string")
    digit_obl(c, rid, o, w, 1, (w, c.src("a")), "bit string")


Case("to_bit_str", OPS + "to_bit_str", un, to_bit_str_check, ["text"])


def to_hex_str_check(c):
    rid, o, n = text(c)
    w = c.W("a")
    q, r = c.st.divmod(w + 3, 4)
    len_obl(c, n, q, "hex string")
    digit_obl(c, rid, o, q, 4, (w, c.src("a")), "hex string")


Case("to_hex_str", OPS + "to_hex_str", un, to_hex_str_check, ["text"])


def signed_str(k, what):
    def check(c):
        st, w = c.st, c.W("a")
        rid, o, n = text(c)
        neg = c.sign("a")
        if neg:
            ch = at(c, rid, o)
            c.bits("value", what + " sign", ch, Bits(8, [(L(i), L(i + 1), (45 >> i) & 1) for i in range(8)]))
            o = o + 1
        cands = [("bits", c.src("a"))]
        if neg:
            cands = [("num", st.num_atom(("in", "a")))]
            if not st.decide(w - 65):
                cands.insert(0, ("num", st.num(Bits(64, [(ZERO, L(64), c.src("a"))]))))
            # the spelling the analysed code tested, if any
            seen = {k0 for c0 in st.facts if c0[0] == "rz" for k0, _, _ in c0[1][2]}
            cands = [kx for kx in cands if ("num", -kx[1]) in seen] or cands
        for i, (kind, x) in enumerate(cands):
            t = dict(c.tally)
            try:
                return signed_digits(c, k, what, rid, o, n, w, neg, x if kind == "bits" else ident(("num", -x)))
            except Fail:
                if i == len(cands) - 1:
                    raise
                c.tally = t
    return check


def signed_digits(c, k, what, rid, o, n, w, neg, s):
    st = c.st
    if neg and not st.decide_cond(st.rz_norm(s, w - 1, w)):
        mw = w          # the most negative value: its magnitude needs the sign bit
    else:
        mw = w - 1 if st.decide(w - 2) else ONE
    nd = mw if k == 1 else st.divmod(mw + (k - 1), k)[0]
    len_obl(c, n, nd + (1 if neg else 0), what)
    digit_obl(c, rid, o, nd, k, (mw, s), what)


Case("to_bit_str_signed", OPS + "to_bit_str_signed", un, signed_str(1, "signed bit string"), ["text"])
Case("to_hex_str_signed", OPS + "to_hex_str_signed", un, signed_str(4, "signed hex string"), ["text"])


def to_dec_check(c):
    """values below 2^128"""
    st, w = c.st, c.W("a")
    rid, o, n = text(c)
    got = st.read_flat(rid, o * 8, (o + n) * 8)
    zero = st.known(st.rz_norm(c.src("a"), ZERO, w)) is True
    big = st.decide(w - 129)
    h = L(128) if big else w
    segs = [(ZERO, h, c.src("a"))] + ([] if big else [(h, L(128), 0)])
    exp = Bits(128, segs)
    what = "decimal string"
    low = not big or st.known(st.rz_norm(c.src("a"), L(128), w)) is True

    def bad(m):
        k = m.lin(n)
        if k > 2000 or m.lin(o) != 0:
            raise Opaque("size")
        v = 0
        for l, hh, s in got:
            for i in range(m.lin(l), m.lin(hh)):
                if m.src(s, i):
                    v |= 1 << i
        x, y = v.to_bytes(k, "little").decode("latin1"), str(m.inputs["a"])
        return None if x == y else "%s is %r, specified %r" % (what, x, y)
    ok = False
    if zero:
        ok = st.eq0(n - 1) and all(same_src(st, *x) for x in zip_flat(st, got, [(L(i), L(i + 1), (48 >> i) & 1) for i in range(8)]))
    if not ok and low and len(got) == 1:
        t = mem_term(got[0][2])
        ok = bool(t and t[0][0] == "display" and t[1] == ZERO and same_number(st, t[0][1], exp)
                  and st.norm(n) == st.norm(st.term_atom(("displen", t[0][1]), False, 1)))
    c.need("value", what, ok, bad)


def dec_in(kind):
    def build(I, env):
        a = un(I, env)
        w = I.bv["a"][0]
        if kind == "narrow":
            I.st.add(L(128) - w)
        else:
            I.st.add(w - 129)
            I.st.add_fact(("rz", ident(("in", "a")), L(128), I.st.norm(w)), kind == "small")
        return a
    return build


Case("to_dec_str", OPS + "to_dec_str", dec_in("narrow"), to_dec_check, ["text"])
Case("to_dec_str_small", OPS + "to_dec_str", dec_in("small"), to_dec_check, ["text"])
Case("to_dec_str_large", OPS + "to_dec_str", dec_in("large"), to_dec_check, ["text"])


# without a width: a width in which the number fits
def big_own(sign):
    def build(I, env):
        b = big_in(sign)(I, env)
        I.W.inputs["x"] = I.W.inputs.get("x", env["n"] * 64)
        I.named[:] = ["x"]
        return b[:1]
    return build


def from_big_own(signed):
    def check(c):
        st, n, sg = c.st, c.st.norm(c.env["n"]), c.env["sign"]
        x = c.src("x")
        w = st.norm(c.bv_parts(st.ret)[0])
        if sg == 1:
            if st.decide(w - 1):
                c.bv(st.ret, w, [(ZERO, w, 0)])
            else:
                c.storage(st.ret)
            return

        def bad(m):
            ww, v = m.lin(w), m.inputs["x"]
            if v.bit_length() > 64 * m.lin(n):
                v &= (1 << 64 * m.lin(n)) - 1
            lo = ww - 1 if signed else ww
            return None if v < 1 << max(lo, 0) or (sg == 0 and v == 1 << max(lo, 0)) else "a number of %d bits is converted to width %d" % (v.bit_length(), ww)
        top = w - 1 if signed else w
        fits = st.ge0(n * 64 - top - 1) is False or st.known(st.rz_norm(x, top, n * 64)) is True
        c.need("value", "width", fits, bad)
        c.env["w"], c.env["own"] = w, True
        from_big_check(c)
    return check


FROMB = "<%s as core::convert::From<&num_bigint::%s>>::from"
Case("from_biguint_own", FROMB % (OWN, "biguint::BigUint"), big_own(2), from_big_own(False), ["bigint", "result"])
Case("from_biguint_own_zero", FROMB % (OWN, "biguint::BigUint"), big_own(1), from_big_own(False), ["bigint", "result"])
for _n, _s in (("zero", 1), ("pos", 2), ("neg", 0)):
    Case("from_bigint_own_" + _n, FROMB % (OWN, "bigint::BigInt"), big_own(_s), from_big_own(True), ["bigint", "result"])
