"""Parsing text, C18: fixed text patterns with free digits, symbolic width within a fixed number of words.

Pattern: literal characters, ? a free binary digit, # a free digit 0..7, {n} repeats the character before."""
import re
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from spec import *
from cases_bv import Chain, MOPS, OWNED, no_panic, mk
from inputs import OWN, REF, MUT

ERR = "bv::io::strings::ParseIntError"
KIND = "bv::io::strings::IntErrorKind"


def expand(p):
    """the bytes of the text, as a latin-1 string"""
    return re.sub(r"(.)\{(\d+)\}", lambda m: m.group(1) * int(m.group(2)), p).encode("utf-8").decode("latin-1")


NFREE = {"?": 1, "#": 3}


def stride(t):
    return 4 if "#" in t or not set(t) <= set("01?+-") else 1


def text_in(I, st, p, name="x"):
    """the text as a byte region; the free bits of the digits are the bits of one input, least significant digit first,
    with the stride of the radix"""
    t = expand(p)
    k = stride(t)
    I.W.inputs[name] = L(k * len(t))
    ws = []
    for i, ch in enumerate(t):
        n = NFREE.get(ch, 0)
        code = 0x30 if n else ord(ch)
        if n:
            ws.append(("flat", L(8 * i), L(8 * i + n), ident(("in", name), L(k * (len(t) - 1 - i) - 8 * i))))
        for b in range(n, 8):
            ws.append(("flat", L(8 * i + b), L(8 * i + b + 1), (code >> b) & 1))
    rid = st.new_region(eb=8, length=L(len(t)), base=("zero",), writes=tuple(ws))
    return VSlice(rid, ZERO, L(len(t)))


def meaning(p, radix):
    """-> ("empty",) | ("bad",) | (negative, [digit: int or (bit position of the free digit, nfree)])"""
    t = expand(p)
    if not t:
        return ("empty",)
    neg = t[0] == "-"
    o = 1 if t[0] in "+-" else 0
    ds = []
    for i, ch in enumerate(t[o:], o):
        if ch in NFREE:
            n = NFREE[ch]
            if (1 << n) > radix:
                raise ValueError(p)
            ds.append((stride(t) * (len(t) - 1 - i), n))
        elif ch.isascii() and ch.isalnum() and int(ch, 36) < radix:
            ds.append(int(ch, 36))
        else:
            return ("bad",)
    return (neg, ds) if ds else ("bad",)


def magnitude(c, ds, radix):
    """-> (flat segments of the magnitude, number of bits)"""
    st = c.st
    if radix == 10:
        v = ZERO
        for d in ds:
            n = L(d) if isinstance(d, int) else st.num(Bits(64, [(ZERO, L(d[1]), c.src("x", L(d[0]))), (L(d[1]), L(64), 0)]))
            v = v * 10 + n
        v = st.norm(v)
        if v.is_const():
            segs = [(L(b), L(b + 1), (v.c >> b) & 1) for b in range(max(1, v.c.bit_length()))]
        else:
            top = 64 * c.I.shape["a"]
            if not st.decide(L((1 << top) - 1) - v):
                top = (10 ** len(ds) - 1).bit_length()
            segs, q = [], v
            for k in range(0, top, 64):
                q, r = st.divmod(q, 1 << 64)
                segs += [(l + k, h + k, f if f in (0, 1) else f_shift(f, L(k))) for l, h, f in st.bits_of(r, 64).segs]
    else:
        k = {2: 1, 16: 4}[radix]
        segs = []
        for i, d in enumerate(reversed(ds)):
            if isinstance(d, int):
                segs += [(L(k * i + b), L(k * i + b + 1), (d >> b) & 1) for b in range(k)]
            else:
                pos, n = d
                segs.append((L(k * i), L(k * i + n), c.src("x", L(pos - k * i))))
                segs += [(L(k * i + b), L(k * i + b + 1), 0) for b in range(n, k)]
        top = k * len(ds)
    out = []
    for lo, hi, f in segs:
        if out and out[-1][2] == f:
            lo = out.pop()[0]
        out.append((lo, hi, f))
    if len(out) > 1 and out[-1][2] == 0:
        out.pop()
    return out, out[-1][1].c


def exceeds(c, segs, nbits, w):
    """the magnitude has a bit at or above w (partitions the trace)"""
    st = c.st
    if any(f not in (0, 1) and is_num(f) for _, _, f in segs) and nbits > 64 * c.I.shape["a"]:
        return True         # decided above: more than all words hold
    for lo, hi, f in reversed(segs):
        if f == 0:
            continue
        if not st.decide(hi - w - 1):
            break
        l = lo if st.decide(lo - w) else w
        if not st.decide_cond(st.rz_norm(f, l, hi)):
            return True
    return False


def clip(c, segs, nbits, w):
    """the magnitude as segments over [0, w)"""
    st = c.st
    out = []
    for lo, hi, f in segs:
        if st.decide(hi - w):
            if st.decide(w - lo - 1):
                out.append((lo, w, f))
            return out
        out.append((lo, hi, f))
    if st.decide(w - nbits - 1):
        out.append((L(nbits), w, 0))
    return out


def result(c, ok_value):
    """Result<T, ParseIntError>: -> ("ok", payload) | ("err", kind name)"""
    v = c.variant(c.st.ret)
    if v.variant == 0:
        return "ok", (v.fields[0] if v.fields else None)
    e = c.variant(v.fields[0])
    if e.path != ERR:
        raise Unsupported("error value %r" % (e,))
    k = c.variant(e.fields[0])
    return "err", c.eng.P.adts[KIND]["variants"][k.variant]["name"]


def num_of(st, segs, nw, w):
    """per word numbers of a segment list covering [0, w)"""
    out = []
    for i in range(nw):
        out.append(st.num(Bits(64, words_part(st, segs, i, w))))
    return out


def words_part(st, segs, i, w):
    lo, hi = L(64 * i), L(64 * i + 64)
    r = []
    for l, h, f in segs:
        if st.ge0(lo - h) or st.ge0(l - hi):
            continue
        a = lo if st.decide(lo - l) else l
        b = hi if st.decide(h - hi) else h
        r.append((st.norm(a - lo), st.norm(b - lo), f if f in (0, 1) else f_shift(f, -lo)))
    if st.decide(hi - w - 1):
        a = ZERO if st.decide(lo - w) else st.norm(w - lo)
        r.append((a, L(64), 0))
    return r


def negated(c, segs, nw, w):
    """-m as the number of every word; the modulus of a partial top word does not matter below the width"""
    st = c.st
    ns = num_of(st, segs, nw, w)
    E, out = ZERO, []
    for i in range(nw):
        E = E - ns[i] * (1 << (64 * i))
    for k in range(nw):
        out.append((L(64 * k), w if k == nw - 1 else L(64 * k + 64), ident(("num", E), L(-64 * k))))
        E = st.divmod(E, 1 << 64)[0]
    return out


def parse_check(radix, width=None):
    def check(c):
        st = c.st
        p = c.I.shape["text"]
        m = meaning(p, radix)
        tgt = c.env.get("target")
        got, val = result(c, tgt)
        if tgt is not None:
            # in place: the target stays a canonical value of its width, whatever the outcome
            c.storage(tgt, "target")
            c.lin_eq("width", "target width", c.bv_parts(tgt)[0], c.env["w"])
            val = tgt if got == "ok" else val
        if got == "ok" and val is not None:
            c.storage(val)
        w = c.env["w"] if width is None else L(width(expand(p)))
        w = st.norm(w)

        def expect(allowed, why):
            good = got == "ok" and "ok" in allowed or got == "err" and val in allowed
            said = "a value" if got == "ok" else "error " + str(val)
            c.need("value", "outcome", good, lambda mm: "%s for text %s (%s bits): specified %s (%s)" % (
                said, shown(mm, p), mm.lin(w), " or ".join("a value" if a == "ok" else "error " + a for a in allowed), why))
        if m[0] == "empty":
            expect(["ok"], "the empty string is zero")
            return value(c, val, w, [(ZERO, w, 0)] if st.decide(w - 1) else [], p)
        if m[0] == "bad":
            return expect(["InvalidDigit", "ExceedsWidth"] if long_text(c, p, radix, w) else ["InvalidDigit"], "not a number")
        neg, ds = m
        segs, nb = magnitude(c, ds, radix)
        if exceeds(c, segs, nb, w):
            return expect(["ExceedsWidth"], "the magnitude does not fit")
        expect(["ok"], "the magnitude fits")
        whole = segs
        segs = clip(c, segs, nb, w)
        if not neg:
            return value(c, val, w, segs, p)
        nw = c.I.shape["a"]
        if all(f in (0, 1) for _, _, f in segs) and all(st.norm(h).is_const() for _, h, f in segs if f):
            n = sum(1 << b for l, h, f in segs if f for b in range(st.norm(l).c, st.norm(h).c))
            cands = [lambda: const_neg(n, w)]
        else:
            cands = [lambda: neg_bits(segs) or negated(c, fold(st, segs), nw, w), lambda: negated(c, fold(st, segs), nw, w),
                     lambda: negated(c, segs, nw, w),
                     lambda: negated(c, whole + [(L(nb), L(64 * nw), 0)] if nb < 64 * nw else whole, nw, w)]
        for i, f in enumerate(cands):
            t = dict(c.tally)
            try:
                return value(c, val, w, f(), p)
            except Fail:
                if i == len(cands) - 1:
                    raise
                c.tally = t
    return check


def neg_bits(segs):
    """-m when the lowest set bit of m is known: the bits above it inverted"""
    out, up = [], False
    for l, h, f in segs:
        if up:
            out.append((l, h, f_not(f) if f not in (0, 1) else 1 - f))
        elif f == 1 and l.is_const():
            out.append((l, l + 1, 1))
            if h != l + 1:
                out.append((l + 1, h, 0))
            up = True
        elif f == 0:
            out.append((l, h, 0))
        else:
            return None
    return out if up else None


def fold(st, segs):
    """bits that are known on this trace"""
    out = []
    for l, h, f in segs:
        if f not in (0, 1) and l.is_const() and h.is_const() and h.c - l.c <= 3:
            for b in range(l.c, h.c):
                k = st.known(st.rz_norm(f, L(b), L(b + 1)))
                out.append((L(b), L(b + 1), f if k is None else 0 if k else 1))
        else:
            out.append((l, h, f))
    r = []
    for l, h, f in out:
        if r and r[-1][2] == f:
            l = r.pop()[0]
        r.append((l, h, f))
    return r


def const_neg(n, w):
    """-n for a constant n: the low bits of the two's complement, ones above"""
    if n == 0:
        return [(ZERO, w, 0)]
    b = n.bit_length()
    x = (-n) & ((1 << b) - 1)
    return [(L(i), L(i + 1), (x >> i) & 1) for i in range(b)] + [(L(b), w, 1)]


def long_text(c, p, radix, w):
    """more characters than the width has room for: the length may be reported first"""
    k = {2: 1, 10: 3, 16: 4}[radix]
    return c.st.decide(L(k * len(expand(p))) - w - 1)


def shown(m, p):
    t = expand(p)
    k = stride(t)
    return repr("".join(chr(0x30 | (m.inputs["x"] >> (k * (len(t) - 1 - i))) & ((1 << NFREE[ch]) - 1)) if ch in NFREE else ch
                        for i, ch in enumerate(t)))


def value(c, v, w, segs, p):
    try:
        c.bv(v, w, segs, "value")
    except Fail as f:
        inner = f.bad

        def bad(m):
            r = inner(m)
            return r and "%s for text %s" % (r, shown(m, p))
        f.bad = bad
        raise


def setup(radix, target):
    def run(I, env, st, eng):
        env["text"] = text_in(I, st, I.shape["text"])
        if target == "mut":
            env["target"] = mk(I, "a")
            env["w"] = I.bv["a"][0]
            if I.path == OWN:
                pass
        elif target == "own":
            w, _ = I.width("a")
            env["w"] = w
        else:
            env["w"] = None
    return run


def parse_case(name, radix, shapes, deep=()):
    K = VInt(32, False, L(radix))
    Chain(name + "_assign", [(MOPS + "assign_from_str_radix", lambda I, env, st, eng: [env["target"], env["text"], K])],
          parse_check(radix), ["parse", "inplace"], receivers=(OWN, MUT), setup=setup(radix, "mut"), shapes=shapes, deep=deep)
    Chain(name + "_own", [(OWNED + "from_str_radix", lambda I, env, st, eng: [env["text"], K, I.wint(env["w"])])],
          parse_check(radix), ["parse", "result"], setup=setup(radix, "own"), shapes=shapes, deep=deep)


def sh(words, texts):
    return [{"a": k, "text": t} for k in words for t in texts]


BIN = sh((1, 2, 3), ["", "0", "1", "?", "??", "-?", "+?", "-??", "1?{3}", "-1?{2}", "00?", "-0", "+0", "0{70}1", "-0{70}1?"]) + \
    sh((1,), ["1?{62}", "1?{63}", "1?{64}", "-1?{62}", "-1?{63}", "-1?{64}", "+1?{63}", "0{5}1?{62}", "1{64}", "1{65}"]) + \
    sh((2,), ["1?{62}", "1?{63}", "1?{64}", "-1?{63}", "-1?{64}", "1?{126}", "1?{127}", "1?{128}", "-1?{126}", "-1?{127}"]) + \
    sh((3,), ["1?{62}", "1?{63}", "1?{64}", "-1?{63}", "-1?{64}", "1?{127}", "1?{128}", "-1?{127}", "1?{189}", "1?{190}", "1?{191}",
              "1?{192}", "-1?{190}", "-1?{191}", "+1?{191}", "0{3}1?{191}", "1{192}", "-1{193}", "0{300}1?", "-0{560}1?"])
BIN_DEEP = sh((4,), ["1?{128}", "1?{191}", "1?{192}", "1?{255}", "1?{256}", "-1?{254}", "-1?{255}", "0{64}1?{191}"])
HEX = sh((1, 2, 3), ["", "0", "f", "F", "#", "-#", "+#", "-8", "a#", "-A#", "0#", "-0", "9aF#", "-bC#d", "0{20}1#", "-0{20}1#"]) + \
    sh((1,), ["1#{14}", "1#{15}", "7#{15}", "f#{15}", "1#{16}", "-1#{15}", "-f#{15}", "fedcba9876543210", "FEDCBA9876543210", "-8000000000000000"]) + \
    sh((2,), ["1#{15}", "1#{16}", "f#{31}", "1#{31}", "1#{32}", "-1#{16}", "-f#{31}", "fedcba98765432100123456789ABCDEF"]) + \
    sh((3,), ["1#{14}", "f#{15}", "1#{16}", "1#{31}", "1#{32}", "-1#{16}", "-1#{32}", "1#{46}", "1#{47}", "7#{47}", "f#{47}", "1#{48}", "-1#{47}", "-f#{47}",
              "+1#{47}", "00f#{47}", "0{130}f#{3}", "0{300}1#", "-0{560}1#", "fedcba98765432100123456789ABCDEF0f1e2d3c4b5a6978"])
HEX_DEEP = sh((4,), ["1#{32}", "f#{47}", "1#{48}", "f#{63}", "1#{64}", "-1#{48}", "-f#{63}"])
DEC = sh((1, 2), ["", "0", "9", "#", "-#", "+#", "-9", "9#", "-1#", "00#", "-0", "255", "256", "-128", "65535", "1#{9}", "18446744073709551615"]) + \
    sh((1,), ["1#{17}", "10#{18}", "18446744073709551616", "-18446744073709551615", "2#{19}", "1#{24}"]) + \
    sh((2,), ["18446744073709551616", "1#{20}", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
              "-340282366920938463463374607431768211455", "1#{40}"])
BADTEXT = ["-", "+", "-+", "+-", "-+1", "+-1", "--1", "++1", " 1", "1 ", "1_0", "0x1", "1-", "1+", "1.0", "\u00e9", "1\u00e9"]
BAD2 = BADTEXT + ["2", "12", "21", "1a", "/", "01:", "1{70}2", "2?{70}"]
BAD16 = BADTEXT + ["g", "1g", "G", "`", "@", "/", ":", "g1", "-g", "1#{20}g", "g#{20}"]
BAD10 = BADTEXT + ["a", "1a", "/", ":", "a1", "-a", "1#{9}a"]

# every other ASCII character as a digit of the parser for wide values
ODD2 = [t for ch in map(chr, range(128)) if ch not in "01?#{" for t in (ch, "1" + ch)]
ODD16 = [t for ch in map(chr, range(128)) if ch not in "0123456789?#{" for t in (ch, "1" + ch)]
BAD2 += ["1\u00ff", "\u0131"]

parse_case("parse_bin_char", 2, sh((3,), ODD2))
parse_case("parse_hex_char", 16, sh((3,), ODD16))
parse_case("parse_bin", 2, BIN, BIN_DEEP)
parse_case("parse_hex", 16, HEX, HEX_DEEP)
parse_case("parse_dec", 10, DEC)
parse_case("parse_bin_bad", 2, sh((1, 2, 3), BAD2))
parse_case("parse_hex_bad", 16, sh((1, 2, 3), BAD16))
parse_case("parse_dec_bad", 10, sh((1, 2), BAD10))
parse_case("parse_dec_wide", 10, sh((3,), ["7"]))


def text_width(k):
    def f(t):
        n = len(t) - 1 if t[:1] in ("+", "-") else len(t)
        return k * n + (1 if t[:1] == "-" else 0)
    return f


def auto(name, api, radix, k, texts, deep=()):
    def words(t):
        return max(1, -(-text_width(k)(expand(t)) // 64))
    Chain(name, [(OWNED + api, lambda I, env, st, eng: [env["text"]])], parse_check(radix, text_width(k)), ["parse"],
          setup=setup(radix, "auto"), shapes=[{"a": words(t), "text": t} for t in texts],
          deep=[{"a": words(t), "text": t} for t in deep])


auto("parse_bit_str", "from_bit_str", 2, 1, ["", "0", "1", "?", "??", "-?", "+?", "-0", "?{3}", "1?{62}", "-1?{62}", "1?{63}", "-1?{63}", "1?{64}",
                                            "-1?{64}", "1?{126}", "1?{127}", "-1?{127}", "1?{128}", "-1?{128}", "1?{190}", "1?{191}", "-1?{191}",
                                            "1?{192}", "0{70}1?", "+1?{191}", "-0{70}"] + BAD2)
auto("parse_hex_str", "from_hex_str", 16, 4, ["", "0", "f", "F", "#", "-#", "+#", "-8", "-f", "a#", "-0", "1#{14}", "f#{15}", "-f#{15}", "1#{15}", "f#{16}",
                                             "-f#{16}", "f#{31}", "-f#{31}", "1#{32}", "f#{32}", "f#{47}", "-f#{47}", "+f#{47}", "0{20}1#"] + BAD16)
