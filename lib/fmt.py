"""Formatting machinery: the compiled template of format_args! and the standard renderings of integers and text."""
from lin import Lin, L, ZERO, ONE
from dom import *
import models as M
from models import model, model_rx, deref, usize, ok, slice_of


def template(bs):
    """pieces of a compiled template: ("lit", bytes) or ("arg", index, flags, width or None, indirect)"""
    out, i, arg = [], 0, 0

    def u16():
        nonlocal i
        v = bs[i] | bs[i + 1] << 8
        i += 2
        return v
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(("lit", bytes(bs[i:i + n])))
            i += n
        elif n == 0x80:
            k = u16()
            out.append(("lit", bytes(bs[i:i + k])))
            i += k
        else:
            flags, width = 0, None
            if n & 1:
                flags = u16() | u16() << 16
            if n & 2:
                width = u16()
            if n & 4:
                return None
            if n & 8:
                arg = u16()
            if n & 32:
                return None
            out.append(("arg", arg, flags, width, bool(n & 16)))
            arg += 1


def byte_list(c, v):
    v = deref(c.eng, c.st, v)
    if isinstance(v, VStr):
        return list(v.b)
    if isinstance(v, (VVec, VSlice)):
        s = slice_of(c.eng, c.st, v)
        n = c.st.norm(s.len)
        if not n.is_const():
            return None
        xs = [M.stdmore.constval(VInt(8, False, c.st.read_word(s.rid, c.st.norm(s.start + i)))) for i in range(n.c)]
        return None if None in xs else xs
    return None


@model_rx(r"^core::fmt::(rt::)?Argument(::)?<")
def _(c):
    if c.name.startswith("new_") and c.args:
        t = c.ty_arg(0)
        return c.ret(VSym(("fmtarg", c.name[4:] + (":char" if t is not None and t["k"] == "char" else ""), c.args[0])))
    if c.name == "from_usize":
        return c.ret(VSym(("fmtarg", "usize", c.args[0])))
    return c.ret(VTop("fmt arg"))


@model_rx(r"^core::fmt::rt::(?!.*Arguments)")
def _(c):
    return c.ret(VTop("fmt arg"))


@model_rx(r"^core::fmt::(rt::<impl core::fmt::)?Arguments")
def _(c):
    s, pieces = "", None
    for a in c.args:
        if isinstance(a, VStr):
            s = a.b.decode("utf8", "replace")
            pieces = (("lit", a.b),)
    if c.name == "new" and len(c.args) == 2:
        bs = byte_list(c, c.args[0])
        t = template(bs) if bs else None
        v = deref(c.eng, c.st, c.args[1])
        if t is not None and isinstance(v, VVec) and c.st.norm(c.st.regions[v.rid].len).is_const():
            fa = [c.eng.load(c.st, ("elem", v.rid, L(i), ())) for i in range(c.st.norm(c.st.regions[v.rid].len).c)]
            out = []
            for p in t:
                if p[0] == "lit":
                    out.append(p)
                    continue
                a = fa[p[1]] if p[1] < len(fa) else None
                if not (isinstance(a, VSym) and a.term[0] == "fmtarg"):
                    out = None
                    break
                w = p[3]
                if p[4]:
                    w = fa[w].term[2] if isinstance(fa[w], VSym) and fa[w].term[0] == "fmtarg" else None
                    if w is None:
                        out = None
                        break
                out.append(("arg", a.term[1], a.term[2], p[2], w))
            pieces = out
            s = s or "".join(p[1].decode("utf8", "replace") if p[0] == "lit" else "{}" for p in t)
    return c.ret(VSym(("fmt", s or "format", None if pieces is None else tuple(pieces))))


def render(c, out, f, last=True):
    """append the formatted text to the buffer `out` (a reference or an owned string); True when it pushed a call whose return
    completes the operation"""
    eng, st = c.eng, c.st
    pieces = f.term[2] if isinstance(f, VSym) and f.term and f.term[0] == "fmt" and len(f.term) > 2 else None
    buf = deref(eng, st, out)
    if pieces is None:
        return M.append_text(st, buf.rid, None)
    for i, p in enumerate(pieces):
        if p[0] == "lit":
            M.append(eng, st, buf, M.str_slice(eng, st, VStr(p[1])))
            continue
        _, kind, ref, flags, width = p
        v = deref(eng, st, ref)
        v = eng.force(st, v)
        plain = width is None and (flags & ~0x1fffff & ~(3 << 29)) == 0
        if isinstance(v, (VStr, VVec, VSlice)) and kind == "display" and plain:
            M.append(eng, st, buf, slice_of(eng, st, v))
            continue
        if isinstance(v, VInt) and kind == "display:char" and plain:
            M.push(eng, st, buf, v)
            continue
        if isinstance(v, VInt) and isinstance(width, (int, type(None))):
            t = const_text(v, kind, flags, width)
            if t is not None:
                M.append(eng, st, buf, M.str_slice(eng, st, VStr(t)))
                continue
        if isinstance(v, VInt) and not v.signed and kind == "display" and plain:
            M.append_text(st, buf.rid, v.rep if isinstance(v.rep, Bits) else st.bits_of(v.rep, v.w))
            continue
        if isinstance(v, VInt) and not v.signed and kind in ("lower_hex", "binary", "upper_hex") and v.w <= 64 \
                and (flags >> 24 & 1 or width is None) and not flags >> 23 & 1 and not flags >> 21 & 1 and last and i == len(pieces) - 1:
            w = ZERO if width is None else L(width) if isinstance(width, int) else eng.num(st, deref(eng, st, width))
            k = 1 if kind == "binary" else 4
            x = VInt(64, False, v.rep if isinstance(v.rep, Lin) else b_resize(st, v.rep, 64))
            if w.is_const() and w.c == -(-v.w // k) and kind != "upper_hex":
                c.shim("fmt_fixed", [out, x, VInt(32, False, L(k)), usize(w)])
            elif kind != "upper_hex":
                c.shim("fmt_radix", [out, x, VInt(32, False, L(k)), usize(w)])
            else:
                return M.append_text(st, buf.rid, None)
            return True
        M.append_text(st, buf.rid, None)
    return None


def const_text(v, kind, flags, width):
    x = M.stdmore.constval(v)
    if x is None or flags >> 21 & 0x7 or (width is not None and (not flags >> 24 & 1)):
        return None
    if x < 0:
        return None
    spec = {"display": "d", "debug": "d", "lower_hex": "x", "upper_hex": "X", "binary": "b", "octal": "o"}.get(kind)
    return None if spec is None else format(x, ("0%d" % width if width else "") + spec).encode()


@model("core::fmt::Write::write_fmt", "core::fmt::Write::write_str", "core::fmt::Write::write_char")
def _(c):
    p, x = M.loc(c.eng, c.st, c.args[0])
    if isinstance(x, VVec):
        if c.name == "write_str":
            M.append(c.eng, c.st, x, c.sl(1))
        elif c.name == "write_char":
            M.push(c.eng, c.st, x, c.args[1])
        elif render(c, c.args[0], c.args[1]):
            return True
    return c.ret(ok(UNIT))


@model_rx(r"^alloc::fmt::format")
def _(c):
    rid = c.st.new_region(eb=8, length=ZERO, base=("const", 0), tag="str")
    v = VVec(rid, "string")
    f = c.args[0]
    pieces = f.term[2] if isinstance(f, VSym) and f.term[0] == "fmt" and len(f.term) > 2 else None
    if pieces and pieces[-1][0] == "arg" and pieces[-1][1] in ("lower_hex", "binary"):
        k = ("cell", c.st.W.fresh())
        c.st.mem[k] = v
        if len(pieces) > 1:
            render(c, VRef(k), VSym(("fmt", "", pieces[:-1])), False)
        return c.shim("fmt_owned", [v, VSym(("fmt", "", pieces[-1:]))])
    render(c, v, f)
    return c.ret(v)


@model_rx(r"^core::hint::must_use$")
def _(c):
    return c.ret(c.args[0])


@model_rx(r"^push_any$", r"^shim::push_any$")
def _(c):
    eng, st = c.eng, c.st
    buf, x = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    if isinstance(x, VInt):
        M.push(eng, st, buf, x)
    else:
        M.append(eng, st, buf, slice_of(eng, st, x))
    return c.ret(UNIT)
