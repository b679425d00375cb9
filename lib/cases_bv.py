"""Specification of the bit-vector API: one Case per API path.  Widths, offsets and data are symbolic."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from state import State, BuildState, Infeasible

OPS = "bv::ops::BitVecOps::"
MOPS = "bv::ops::BitVecMutOps::"
OWNED = "bv::owned::BitVecValue::"

CASES = {}


class Anchor(Exception):
    pass


def shape_of(path):
    """the path up to the names of lifetimes and generic parameters"""
    import re
    p = re.sub(r"'\w+ ?", "", path)
    p = p.replace("<>", "")
    return re.sub(r"(?<![\w:])[A-Z][A-Z0-9]?(?![\w:])", "$", p)


def find_root(prog, api):
    if api.startswith("impl "):
        # impl TRAIT NAME TYPE: the implementation, derived or written out
        k = prog.dispatch.get(tuple(api.split(" ")[1:]))
        if k:
            return k
        raise Anchor(api)
    for r in prog.roots:
        if r["path"] == api:
            return r["key"]
    n = shape_of(api)
    c = [r["key"] for r in prog.roots if shape_of(r["path"]) == n]
    if len(c) == 1:
        return c[0]
    raise Anchor(api)


class Case:
    def __init__(self, name, api, build, check, tags=(), receivers=None, abnormal=None, configs=("debug", "release")):
        self.name, self.api, self.build, self.check = name, api, build, check
        gen = api.startswith((OPS, MOPS))
        self.generic = gen and receivers is None or receivers is not None and "$BV" in receivers
        if receivers is None:
            receivers = (("$BV", OWN, MUT) if api.startswith(MOPS) else ("$BV", OWN, REF, MUT)) if gen else ("$BV",)
        self.tags, self.receivers, self.configs = tuple(tags), receivers, configs
        if abnormal:
            self.abnormal = abnormal
        CASES[name] = self

    def abnormal(self, c):
        no_panic(c)

    def overridden(self, prog, variant):
        """a receiver type with its own implementation of a provided method"""
        for tr in (OPS, MOPS):
            if self.api.startswith(tr):
                return (tr[:-2], self.api[len(tr):], variant) in prog.dispatch
        return False

    def key(self, prog, variant="$BV"):
        """API path, or the override of a provided method for this receiver"""
        for tr in (OPS, MOPS):
            if self.api.startswith(tr) and variant != "$BV":
                k = prog.dispatch.get((tr[:-2], self.api[len(tr):], variant))
                if k:
                    return k
        for r in prog.roots:
            if r["path"] == self.api:
                return r["key"]
        raise Anchor(self.api)


    def run(self, E, I, env, variant):
        """all terminated traces of the API path"""
        key = self.key(E.P, variant)
        args = env["args"] = self.build(I, env)
        I.st.__class__ = State
        yield from E.run_fn(I.st, key, args)


class Chain(Case):
    """several API calls in a row on one state: steps are (api, args(I, env, st, eng)); the result of step i stays in
    st.mem[("res", i)] and the number of effects before step i in st.mem[("eff", i)]"""
    def __init__(self, name, steps, check, tags=(), receivers=("-",), setup=None, shapes=None, deep=(), limit=None, **k):
        self.steps, self.setup, self.shapes, self.deep, self.limit = steps, setup, shapes, list(deep), limit
        super().__init__(name, steps[0][0], None, check, tags, receivers=receivers, **k)

    def run(self, E, I, env, variant):
        keys = [self.find(E.P, api) for api, _ in self.steps]
        if self.setup:
            self.setup(I, env, I.st, E)
        I.st.__class__ = State
        work = [(I.st, 0)]
        while work:
            st, i = work.pop()
            s = st.clone()
            s.__class__ = BuildState
            try:
                args = self.steps[i][1](I, env, s, E)
            except Infeasible:
                continue
            except (Fork, ForkData) as f:
                work.extend((x, i) for x in E.split(st, f))
                continue
            s.__class__ = State
            s.mem[("eff", i)] = len(s.effects)
            s.status = "run"
            for out in E.run_fn(s, keys[i], args):
                if out.status == "return" and i + 1 < len(self.steps):
                    t = out.clone()
                    t.mem[("res", i)] = t.ret
                    work.append((t, i + 1))
                else:
                    out.mem[("res", i)] = out.ret
                    yield out

    @staticmethod
    def find(prog, api):
        return find_root(prog, api)


def no_panic(c):
    st = c.st
    msg = st.ret
    kind = st.status

    def bad(m):
        if kind == "panic":
            x = msg[0]
            if isinstance(x, tuple):
                x = x[0]
            return "panics (%s) in %s" % (x, msg[1])
        return "does not return: reaches a stub or diverges"
    raise Fail("panic", "termination", bad)


# ---------------------------------------------------------------- inputs
def mk(I, n, like=None, **k):
    """receiver"""
    p = getattr(I, "path", "$BV")
    v = I.recv(n, like=like, path=p, **k)
    if p in (REF, MUT):
        w, rid = v.fields[0], v.fields[1].rid
        v = VAdt(p, 0, (w, VSlice(rid, ZERO, I.bv[n][1])))
    return I.obj(v)


def un(I, env):
    return [mk(I, "a")]


def bi(I, env):
    return [mk(I, "a"), I.obj(I.ref("b", like="a"))]


def bi2(I, env):
    return [mk(I, "a"), I.obj(I.ref("b"))]


def width_arg(I, env, n="a"):
    w, _ = I.width(n)
    env["w"] = w
    return I.wint(w)


# ---------------------------------------------------------------- bitwise, C04
def bitwise(fn):
    def check(c):
        w = c.W("a")
        s = f_apply(fn, *[c.src(n) for n in c.I.bv])
        c.bv(c.st.ret, w, [(ZERO, w, s)])
    return check


Case("and", OPS + "and", bi, bitwise(lambda a, b: a & b), ["bitwise", "result"])
Case("or", OPS + "or", bi, bitwise(lambda a, b: a | b), ["bitwise", "result"])
Case("xor", OPS + "xor", bi, bitwise(lambda a, b: a ^ b), ["bitwise", "result"])
Case("not", OPS + "not", un, bitwise(lambda a: 1 - a), ["bitwise", "result"])


# ---------------------------------------------------------------- arithmetic, C06
def arith(fn):
    def check(c):
        st = c.st
        w = c.W("a")
        names = list(c.I.bv)
        wide = st.decide(w - 65)
        whole = [st.num_atom(("in", n)) for n in names]
        word = [st.num(Bits(64, [(ZERO, L(64), c.src(n))])) for n in names]
        cands = [whole] if wide else [word, whole]
        for i, ns in enumerate(cands):
            e = fn(st, *ns)
            try:
                n0 = dict(c.tally)
                c.bv(st.ret, w, [(ZERO, w, ident(("num", e)))])
                return
            except Fail:
                if i == len(cands) - 1:
                    e = fn(st, *cands[0])
                    c.bv(st.ret, w, [(ZERO, w, ident(("num", e)))])
                    raise
                c.tally = n0
    return check


Case("add", OPS + "add", bi, arith(lambda st, a, b: a + b), ["arith", "result"])
Case("sub", OPS + "sub", bi, arith(lambda st, a, b: a - b), ["arith", "result"])
Case("negate", OPS + "negate", un, arith(lambda st, a: -a), ["arith", "result"])


def bi_narrow(I, env):
    r = bi(I, env)
    I.st.add(L(64) - I.bv["a"][0])
    return r


def bi_wide(I, env):
    r = bi(I, env)
    I.st.add(I.bv["a"][0] - 65)
    return r


Case("mul", OPS + "mul", bi_narrow, arith(lambda st, a, b: st.mul(a, b)), ["arith", "result"])
Case("mul_wide", OPS + "mul", bi_wide, arith(lambda st, a, b: st.mul(a, b)), ["mulwide"])


# ---------------------------------------------------------------- routing, C03
def slice_in(I, env):
    a = mk(I, "a")
    lo, l = I.nat("lsb", 32, 0)
    hi, h = I.nat("msb", 32, 0)
    I.st.add(h - l)
    I.st.add(I.bv["a"][0] - 1 - h)
    env["lo"], env["hi"] = l, h
    return [a, hi, lo]


def slice_check(c):
    w = c.st.norm(c.env["hi"] - c.env["lo"] + 1)
    c.bv(c.st.ret, w, [(ZERO, w, c.src("a", c.env["lo"]))])


Case("slice", OPS + "slice", slice_in, slice_check, ["route", "result"])


def concat_check(c):
    wa, wb = c.W("a"), c.W("b")
    c.bv(c.st.ret, wa + wb, [(ZERO, wb, c.src("b")), (wb, wa + wb, c.src("a", -wb))])


Case("concat", OPS + "concat", bi2, concat_check, ["route", "result"])


def ext_in(I, env):
    a = mk(I, "a")
    by, x = I.nat("by", 32, 0)
    I.st.add(L((1 << 31) - 1) - x - I.bv["a"][0])
    env["by"] = x
    return [a, by]


def ext_check(sign):
    def check(c):
        w = c.W("a")
        fill = bit_const(c.src("a"), w - 1) if sign else 0
        o = c.st.norm(w + c.env["by"])
        c.bv(c.st.ret, o, [(ZERO, w, c.src("a")), (w, o, fill)])
    return check


Case("sign_extend", OPS + "sign_extend", ext_in, ext_check(True), ["route", "result"])
Case("zero_extend", OPS + "zero_extend", ext_in, ext_check(False), ["route", "result"])


def shift_amount(c):
    """None (at least the width) or the amount"""
    st, w = c.st, c.W("a")
    if not st.decide_cond(st.rz_norm(c.src("b"), L(64), st.norm(w)) if st.decide(w - 65) else TRUE):
        return None
    s = st.num(Bits(64, [(ZERO, L(64), c.src("b"))]))
    return None if st.decide(s - w) else s


def shift_check(kind):
    def check(c):
        w = c.W("a")
        s = shift_amount(c)
        fill = bit_const(c.src("a"), w - 1) if kind == "ashr" else 0
        if s is None:
            segs = [(ZERO, w, fill)]
        elif kind == "shl":
            segs = [(ZERO, s, 0), (s, w, c.src("a", -s))]
        else:
            segs = [(ZERO, w - s, c.src("a", s)), (w - s, w, fill)]
        c.bv(c.st.ret, w, segs)
    return check


Case("shift_left", OPS + "shift_left", bi, shift_check("shl"), ["route", "result"])
Case("shift_right", OPS + "shift_right", bi, shift_check("shr"), ["route", "result"])
Case("arithmetic_shift_right", OPS + "arithmetic_shift_right", bi, shift_check("ashr"), ["route", "result"])


# ---------------------------------------------------------------- comparisons, C05
def to_signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def cmp_check(rel, signed):
    def check(c):
        def prove():
            if signed:
                sa, sb = c.sign("a"), c.sign("b")
                if sa != sb:
                    return rel(-1 if sa else 1)
            o = c.unsigned_order("a", "b")
            return None if o is None else rel(o)

        def oracle(m):
            a, b = m.inputs["a"], m.inputs["b"]
            w = m.lin(c.W("a"))
            if signed:
                a, b = to_signed(a, w), to_signed(b, w)
            return rel((a > b) - (a < b))
        c.boolean(c.st.ret, (prove, oracle))
    return check


for _n, _f in (("greater", lambda o: o > 0), ("greater_or_equal", lambda o: o >= 0), ("less", lambda o: o < 0),
               ("less_or_equal", lambda o: o <= 0)):
    Case("is_" + _n, OPS + "is_" + _n, bi, cmp_check(_f, False), ["compare"])
    Case("is_" + _n + "_signed", OPS + "is_" + _n + "_signed", bi, cmp_check(_f, True), ["compare"])


def eq_check(neg, wa="a", wb="b"):
    def check(c):
        st = c.st

        def prove():
            x = mk_f(6, [(("in", wa), ZERO, 1), (("in", wb), ZERO, 1)])
            k = st.known(st.rz_norm(x, ZERO, c.W(wa)))
            return None if k is None else (k != neg)

        def oracle(m):
            return (m.inputs[wa] == m.inputs[wb]) != neg
        c.boolean(st.ret, (prove, oracle))
    return check


Case("is_equal", OPS + "is_equal", bi, eq_check(False), ["compare"])
Case("is_not_equal", OPS + "is_not_equal", bi, eq_check(True), ["compare"])


# ---------------------------------------------------------------- predicates / native integers, C07
def zero_known(c, n, lo=ZERO):
    return c.st.known(c.st.rz_norm(c.src(n), lo, c.W(n)))


def pred_check(prove, oracle):
    return lambda c: c.boolean(c.st.ret, (lambda: prove(c), lambda m: oracle(m.inputs["a"], m.lin(c.W("a")))))


Case("is_zero", OPS + "is_zero", un, pred_check(lambda c: zero_known(c, "a"), lambda a, w: a == 0), ["native"])
Case("is_negative", OPS + "is_negative", un, pred_check(lambda c: c.sign("a"), lambda a, w: bool(a >> (w - 1))), ["native"])


def one_bit(v):
    def prove(c):
        if c.st.decide(c.W("a") - 2):
            return False
        z = c.st.decide_cond(c.st.rz_norm(c.src("a"), ZERO, ONE))
        return z == (v == 0)
    return prove


Case("is_tru", OPS + "is_tru", un, pred_check(one_bit(1), lambda a, w: w == 1 and a == 1), ["native"])
Case("is_fals", OPS + "is_fals", un, pred_check(one_bit(0), lambda a, w: w == 1 and a == 0), ["native"])


def bit_in(I, env):
    a = mk(I, "a")
    p, x = I.nat("pos", 32, 0)
    I.st.add(I.bv["a"][0] - 1 - x)
    env["pos"] = x
    return [a, p]


def bit_check(c):
    p = c.env["pos"]
    c.boolean(c.st.ret, (lambda: not c.st.decide_cond(c.st.rz_norm(c.src("a"), p, p + 1)),
                         lambda m: bool((m.inputs["a"] >> m.lin(p)) & 1)))


Case("is_bit_set", OPS + "is_bit_set", bit_in, bit_check, ["native"])


def some(c, present, what="result"):
    """present: True/False expected variant (or (prove, oracle)); -> payload or None"""
    v = c.variant(c.st.ret)
    got = v.variant == 1
    if isinstance(present, tuple):
        p = present[0]()
        oracle = present[1]
    else:
        p, oracle = present, lambda m: present

    def bad(m):
        y = oracle(m)
        return None if y == got else "%s is %s, specified %s" % (what, "Some" if got else "None", "Some" if y else "None")
    c.need("value", what + " presence", p == got, bad)
    return v.fields[0] if got else None


def to_bool_check(c):
    st = c.st
    wide = st.decide(c.W("a") - 2)
    v = some(c, not wide)
    if v is not None:
        got = c.truth(v)
        one = not st.decide_cond(st.rz_norm(c.src("a"), ZERO, ONE))
        c.need("value", "to_bool", got == one, lambda m: None if got == bool(m.inputs["a"] & 1) else "to_bool is %s" % got)


Case("to_bool", OPS + "to_bool", un, to_bool_check, ["native"])


def int_bits(c, v):
    return c.eng.word(c.st, v)


def to_u64_check(c):
    st = c.st

    def fits():
        w = c.W("a")
        return True if not st.decide(w - 65) else zero_known(c, "a", L(64))
    v = some(c, (fits, lambda m: m.inputs["a"] < 1 << 64))
    if v is not None:
        c.bits("value", "to_u64", int_bits(c, v), Bits(64, [(ZERO, L(64), c.src("a"))]))


Case("to_u64", OPS + "to_u64", un, to_u64_check, ["native"])


def to_i64_check(c):
    st = c.st
    w = c.W("a")

    def fits():
        if not st.decide(w - 65):
            return True
        # bits 63 and above are all equal
        if st.decide_cond(st.rz_norm(c.src("a"), L(63), L(64))):
            return st.decide_cond(st.rz_norm(c.src("a"), L(64), w))
        return st.decide_cond(st.rz_norm(f_not(c.src("a")), L(64), w))

    def oracle(m):
        ww = m.lin(w)
        v = to_signed(m.inputs["a"], ww)
        return -(1 << 63) <= v < 1 << 63
    v = some(c, (fits, oracle))
    if v is not None:
        x = int_bits(c, v)
        if st.decide(w - 65):
            c.bits("value", "to_i64", x, Bits(64, [(ZERO, L(64), c.src("a"))]))
        else:
            c.bits("value", "to_i64", x, Bits(64, [(ZERO, w, c.src("a")), (w, L(64), bit_const(c.src("a"), w - 1))]))


Case("to_i64", OPS + "to_i64", un, to_i64_check, ["native"])


# ---------------------------------------------------------------- constructors
def z_in(I, env):
    return [width_arg(I, env)]


def const_check(bit):
    def check(c):
        w = c.st.norm(c.env["w"])
        c.bv(c.st.ret, w, [(ZERO, w, bit)])
    return check


Case("zero", OWNED + "zero", z_in, const_check(0), ["construct", "result"])
Case("ones", OWNED + "ones", z_in, const_check(1), ["construct", "result"])


def fu_in(signed, wide):
    def build(I, env):
        w = width_arg(I, env)
        x = I.word("x", 64, signed)
        W = env["w"]
        if wide:
            I.st.add(W - (65 if signed else 64))
        else:
            I.st.add(L(64 if signed else 63) - W)
            s = ident(("in", "x"))
            if signed:
                # sign extension of the low W bits
                f = f_apply(lambda a, b: a ^ b, s, bit_const(s, W - 1))
                I.st.add_fact(I.st.rz_norm(f, W, L(64)), True)
            else:
                I.st.add_fact(I.st.rz_norm(s, W, L(64)), True)
        return [x, w]
    return build


def fu_check(signed, wide):
    def check(c):
        w = c.st.norm(c.env["w"])
        x = c.src("x")
        if wide:
            segs = [(ZERO, L(64), x), (L(64), w, bit_const(x, L(63)) if signed else 0)]
        else:
            segs = [(ZERO, w, x)]
        c.bv(c.st.ret, w, segs)
    return check


for _s, _n in ((False, "from_u64"), (True, "from_i64")):
    for _w in (False, True):
        Case(_n + ("_wide" if _w else "_narrow"), OWNED + _n, fu_in(_s, _w), fu_check(_s, _w), ["construct", "result"])


def fu_any(signed):
    def build(I, env):
        w = width_arg(I, env)
        return [I.word("x", 64, signed), w]
    return build


def any_check(c):
    w = c.st.norm(c.env["w"])
    c.bv(c.st.ret, w, None)


def low_bits_check(c):
    """truncation: the low bits are kept"""
    w = c.st.norm(c.env["w"])
    if c.st.decide(w - 65):
        c.bv(c.st.ret, w, None)
    else:
        c.bv(c.st.ret, w, [(ZERO, w, c.src("x"))])


# in release builds an oversized value is truncated, never stored out of canonical form
Case("from_u64_truncating", OWNED + "from_u64", fu_any(False), low_bits_check, ["construct", "result"], configs=("release",))
Case("from_i64_truncating", OWNED + "from_i64", fu_any(True), low_bits_check, ["construct", "result"], configs=("release",))


def no_in(I, env):
    return []


Case("tru", OWNED + "tru", no_in, lambda c: c.bv(c.st.ret, ONE, [(ZERO, ONE, 1)]), ["construct", "result"])
Case("fals", OWNED + "fals", no_in, lambda c: c.bv(c.st.ret, ONE, [(ZERO, ONE, 0)]), ["construct", "result"])


def bool_in(I, env):
    env["c"] = ("data", "arg", "b")
    return [VBool(env["c"])]


def from_bool_check(c):
    v = c.st.decide_cond(c.env["c"])
    c.bv(c.st.ret, ONE, [(ZERO, ONE, 1 if v else 0)])


Case("from_bool", OWNED + "from_bool", bool_in, from_bool_check, ["construct", "result"])
Case("from_bool_trait", "<bv::owned::BitVecValue as core::convert::From<bool>>::from", bool_in, from_bool_check,
     ["construct", "result"])


# ---------------------------------------------------------------- in-place operations, C10
def inplace(segs):
    """the receiver holds exactly the specified bits afterwards, its width is unchanged"""
    def check(c):
        w = c.W("a")
        c.bv(c.env["args"][0], w, segs(c, w), "receiver")
    return check


def assign_in(I, env):
    return [mk(I, "a"), I.ref("b", like="a")]


def assign_own(I, env):
    a = mk(I, "a")
    b = I.recv("b", like="a", path=OWN)
    return [a, I.obj(b)]


MUTS = ("$BV", OWN, MUT)
Case("assign", MOPS + "assign", assign_in, inplace(lambda c, w: [(ZERO, w, c.src("b"))]), ["inplace", "result"])
Case("assign_owned", MOPS + "assign", assign_own, inplace(lambda c, w: [(ZERO, w, c.src("b"))]), ["inplace", "result"])
Case("clear", MOPS + "clear", un, inplace(lambda c, w: [(ZERO, w, 0)]), ["inplace", "result"])
Case("assign_ones", MOPS + "assign_ones", un, inplace(lambda c, w: [(ZERO, w, 1)]), ["inplace", "result"])
Case("mask_msb", MOPS + "mask_msb", un, inplace(lambda c, w: [(ZERO, w, c.src("a"))]), ["inplace", "result"])


def setbit(v):
    def segs(c, w):
        p = c.env["pos"]
        return [(ZERO, p, c.src("a")), (p, p + 1, v), (p + 1, w, c.src("a"))]
    return segs


Case("set_bit", MOPS + "set_bit", bit_in, inplace(setbit(1)), ["inplace", "result"])
Case("clear_bit", MOPS + "clear_bit", bit_in, inplace(setbit(0)), ["inplace", "result"])


def au_in(signed, wide):
    def build(I, env):
        a = mk(I, "a")
        x = I.word("x", 64, signed)
        W = I.bv["a"][0]
        s = ident(("in", "x"))
        if wide:
            I.st.add(W - (65 if signed else 64))
        else:
            I.st.add(L(64 if signed else 63) - W)
            f = f_apply(lambda a, b: a ^ b, s, bit_const(s, W - 1)) if signed else s
            I.st.add_fact(I.st.rz_norm(f, W, L(64)), True)
        return [a, x]
    return build


def au_segs(signed, wide):
    def segs(c, w):
        x = c.src("x")
        if wide:
            return [(ZERO, L(64), x), (L(64), w, bit_const(x, L(63)) if signed else 0)]
        return [(ZERO, w, x)]
    return segs


for _s, _n in ((False, "assign_from_u64"), (True, "assign_from_i64")):
    for _w in (False, True):
        Case(_n + ("_wide" if _w else "_narrow"), MOPS + _n, au_in(_s, _w), inplace(au_segs(_s, _w)), ["inplace", "result"])


def au_any(signed):
    def build(I, env):
        return [mk(I, "a"), I.word("x", 64, signed)]
    return build


def au_trunc(c):
    w = c.W("a")
    x = c.src("x")
    if c.st.decide(w - 65):
        return None
    return [(ZERO, w, x)]


Case("assign_from_u64_truncating", MOPS + "assign_from_u64", au_any(False), inplace(lambda c, w: au_trunc(c)),
     ["inplace", "result"], configs=("release",))
Case("assign_from_i64_truncating", MOPS + "assign_from_i64", au_any(True), inplace(lambda c, w: au_trunc(c)),
     ["inplace", "result"], configs=("release",))
