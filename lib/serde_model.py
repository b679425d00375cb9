"""serde's data model as trees: a serializer that records what it is given and a deserializer that plays it back, for
self-describing formats (fields by name) and sequential ones (fields by position).

Trees: ("struct", name, ((key, tree), ..)), ("variant", enum, index, name, kind, payload), ("leaf", type, value), ("unit",)."""
import re
from dom import *
from lin import L
from models import model_rx, deref, some, NONE, ok, err as error, slice_of, copy_slice

SER, DE = "serde_core::ser::", "serde_core::de::"
MODE = ("serde_mode",)


def err(what):
    return error(VSym(("serde_error", what)))


def sym(v, tag):
    if isinstance(v, VSym) and isinstance(v.term, tuple) and v.term[0] == tag:
        return v.term
    raise Unsupported("not a %s: %r" % (tag, v))


def text(c, i):
    v = deref(c.eng, c.st, c.args[i])
    if isinstance(v, VStr):
        return v.b
    raise Unsupported("name of a field")


def const_int(c, i):
    n = c.num(i)
    if not n.is_const():
        raise Unsupported("symbolic length")
    return n.c


def ty_name(t, types):
    while t is not None and t["k"] == "ref":
        t = types[t["elem"]]
    return t


def fn(c, key):
    b = c.eng.P.bodies[key]
    return VFn((b, {"k": "fn", "path": "$direct", "inst": key}))


SEQ = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:\[(\w+)\]|alloc::vec::Vec<(\w+)>|alloc::boxed::Box<\[(\w+)\]>|smallvec::SmallVec<\[(\w+); \d+\]>)$")


def leaf_name(t):
    """slices, vectors and boxed slices of one element type are the same sequence"""
    if t is None:
        return None
    m = SEQ.match(t["s"])
    return "seq " + next(x for x in m.groups() if x) if m else t["s"]


def leaf_tree(c, t, val):
    name = leaf_name(t)
    if name and name.startswith("seq ") and not isinstance(val, VVec):
        val = copy_slice(c.eng, c.st, slice_of(c.eng, c.st, val))
    return ("leaf", name, val)


def hook(c, path):
    return VFn((c.body, {"k": "fn", "path": path}))


def local(c, t, trait, name):
    """implementation of a serde trait in the crate"""
    t = ty_name(t, c.body["_types"])
    if t is not None and t["k"] == "adt":
        return c.eng.P.dispatch.get((trait, name, t["path"]))
    return None


def visit(c, visitor, name, args):
    v = deref(c.eng, c.st, visitor)
    if isinstance(v, VAdt):
        k = c.eng.P.dispatch.get((DE + "Visitor", name, v.path))
        if k:
            c.eng.push(c.st, k, [visitor] + args, c.dest, c.target, c.sp)
            return True
    raise Unsupported("visitor without %s" % name)


# ---------------------------------------------------------------- serializer
def new_state(c, head):
    k = ("ser", c.st.W.fresh())
    c.st.mem[k] = VSym(("open", head, ()))
    return c.ret(ok(VSym(("serstate", k))))


def serialize_value(c, t, val, record, ctx):
    """the tree of a value, given to the recording function"""
    k = local(c, t, SER + "Serialize", "serialize")
    while isinstance(val, VRef):
        # references serialize like the value
        x = deref(c.eng, c.st, val)
        if k is None:
            val = x
        break
    if k:
        return c.shim("then2", [fn(c, k), val, VSym(("serializer",)), hook(c, record), ctx])
    t = ty_name(t, c.body["_types"])
    tree = leaf_tree(c, t, val)
    return finish_record(c, record, ctx, VSym(("tree", tree)))


def finish_record(c, record, ctx, tree):
    if record == "$serde_field":
        return c.ret(add_field(c, ctx, tree))
    return c.ret(wrap(ctx, tree))


def add_field(c, ctx, tree):
    _, k, key = sym(ctx, "field")
    _, head, fields = c.st.mem[k].term
    c.st.mem[k] = VSym(("open", head, fields + ((key, sym(tree, "tree")[1]),)))
    return ok(UNIT)


def wrap(ctx, tree):
    _, head = sym(ctx, "wrap")
    t = sym(tree, "tree")[1]
    return ok(VSym(("tree", t if head is None else head + (t,))))


@model_rx(r"^\$serde_field$")
def _(c):
    return c.ret(add_field(c, c.args[0], c.args[1]))


@model_rx(r"^\$serde_wrap$")
def _(c):
    return c.ret(wrap(c.args[0], c.args[1]))


@model_rx(r"^serde_core::ser::Serializer::")
def _(c):
    n = c.name
    if n == "is_human_readable":
        return c.ret(VBool(("c", c.st.mem[MODE].term == "map")))
    sym(c.args[0], "serializer")
    if n == "serialize_struct":
        return new_state(c, ("struct", text(c, 1)))
    if n in ("serialize_tuple", "serialize_tuple_struct"):
        return new_state(c, ("struct", b"" if n == "serialize_tuple" else text(c, 1)))
    if n in ("serialize_tuple_variant", "serialize_struct_variant"):
        return new_state(c, ("variant", text(c, 1), const_int(c, 2), text(c, 3), n[10:-8]))
    if n == "serialize_newtype_variant":
        head = ("variant", text(c, 1), const_int(c, 2), text(c, 3), "newtype")
        return serialize_value(c, c.ty_arg(1), c.args[4], "$serde_wrap", VSym(("wrap", head)))
    if n == "serialize_newtype_struct":
        return serialize_value(c, c.ty_arg(1), c.args[2], "$serde_wrap", VSym(("wrap", None)))
    if n == "serialize_unit_variant":
        return c.ret(ok(VSym(("tree", ("variant", text(c, 1), const_int(c, 2), text(c, 3), "unit", ("unit",))))))
    if n in ("serialize_unit", "serialize_unit_struct"):
        return c.ret(ok(VSym(("tree", ("unit",)))))
    if n in ("serialize_bool", "serialize_u8", "serialize_u16", "serialize_u32", "serialize_u64", "serialize_u128",
             "serialize_i8", "serialize_i16", "serialize_i32", "serialize_i64", "serialize_i128", "serialize_str"):
        return c.ret(ok(VSym(("tree", ("leaf", n[10:], c.args[1])))))
    raise Unsupported("serde runtime: " + n)


@model_rx(r"^serde_core::ser::Serialize(Struct|StructVariant|TupleVariant|Tuple|TupleStruct)::(serialize_field|serialize_element|skip_field|end)$")
def _(c):
    st = c.st
    _, k = sym(deref(c.eng, st, c.args[0]), "serstate")
    if c.name == "skip_field":
        return c.ret(ok(UNIT))
    if c.name == "end":
        _, head, fields = st.mem[k].term
        if head[0] == "struct":
            t = ("struct", head[1], fields)
        else:
            t = head + (("struct", head[1], fields),)
        return c.ret(ok(VSym(("tree", t))))
    named = len(c.args) == 3
    key = text(c, 1) if named else None
    return serialize_value(c, c.ty_arg(1), c.args[-1], "$serde_field", VSym(("field", k, key)))


@model_rx(r"^serde_core::ser::Serialize::serialize$", r"^serde_core::ser::impls::<impl serde_core::ser::Serialize for .*>::serialize$",
          r"^<.* as serde_core::ser::Serialize>::serialize$", r"^smallvec::.*Serialize for .*::serialize$")
def _(c):
    """of a type outside the crate: a leaf"""
    if local(c, c.ty_arg(0), SER + "Serialize", "serialize"):
        return False
    sym(c.args[1], "serializer")
    return serialize_value(c, c.ty_arg(0), c.args[0], "$serde_wrap", VSym(("wrap", None)))


# ---------------------------------------------------------------- deserializer
def access(c, what, node):
    k = ("de", c.st.W.fresh())
    c.st.mem[k] = VSym((what, node, 0, None))
    return VRef(k)


def handle(c):
    """the place and content of a map or sequence access behind one or more references"""
    v = c.args[0]
    while isinstance(v, VRef):
        x = c.eng.load(c.st, ("mem", v.key, v.path))
        if isinstance(x, VSym) and x.term[0] in ("map", "seq"):
            return v.key, x.term
        v = x
    raise Unsupported("access")


def take(c, t, node, shim, extra=()):
    """deserialize the node as a value of type t and wrap the result"""
    k = local(c, t, DE + "Deserialize", "deserialize")
    if k:
        d = VSym(("deserializer", node))
        if shim is None:
            c.eng.push(c.st, k, [d], c.dest, c.target, c.sp)
            return True
        return c.shim(shim, [fn(c, k), d] + list(extra))
    v = leaf(c, t, node)
    if shim == "ok_some1":
        v = some(v)
    return c.ret(ok(v))


def leaf(c, t, node):
    t = ty_name(t, c.body["_types"])
    if t is not None and t["k"] == "adt" and t["path"].endswith("IgnoredAny"):
        return VAdt(t["path"], 0, ())
    if node[0] != "leaf":
        raise Unsupported("a composite value read as %s" % (t and t["s"]))
    if t is None or leaf_name(t) != node[1]:
        raise Unsupported("written as %s, read as %s" % (node[1], t and t["s"]))
    if isinstance(node[2], VVec):
        kind = "small" if "SmallVec" in t["s"] else "vec"
        if kind != node[2].kind:
            return VVec(node[2].rid, kind)
    return node[2]


def named_visit(c, visitor, node):
    if node[0] != "struct":
        raise Unsupported("a struct is read from %s" % node[0])
    if c.st.mem[MODE].term == "map" and all(k is not None for k, _ in node[2]):
        return visit(c, visitor, "visit_map", [access(c, "map", node)])
    return visit(c, visitor, "visit_seq", [access(c, "seq", node)])


@model_rx(r"^serde_core::de::Deserializer::")
def _(c):
    n = c.name
    d = c.args[0]
    if n == "is_human_readable":
        return c.ret(VBool(("c", c.st.mem[MODE].term == "map")))
    if n == "deserialize_identifier":
        _, key, idx = sym(d, "ident")
        if c.st.mem[MODE].term == "map":
            return visit(c, c.args[1], "visit_str", [VStr(key)])
        return visit(c, c.args[1], "visit_u64", [VInt(64, False, L(idx))])
    node = sym(d, "deserializer")[1]
    if n in ("deserialize_struct", "deserialize_tuple_struct"):
        return named_visit(c, c.args[3], node)
    if n == "deserialize_tuple":
        return named_visit(c, c.args[2], node)
    if n == "deserialize_newtype_struct":
        return visit(c, c.args[2], "visit_newtype_struct", [d])
    if n == "deserialize_enum":
        if node[0] != "variant":
            raise Unsupported("an enum is read from %s" % node[0])
        return visit(c, c.args[3], "visit_enum", [VSym(("enum", node))])
    raise Unsupported("serde runtime: " + n)


@model_rx(r"^serde_core::de::(MapAccess|SeqAccess|EnumAccess)::(next_key|next_value|next_element|variant)$")
def _(c):
    n = c.name
    if n == "variant":
        _, node = sym(deref(c.eng, c.st, c.args[0]), "enum")
        k = local(c, c.ty_arg(1), DE + "Deserialize", "deserialize")
        if not k:
            raise Unsupported("variant identifier")
        return c.shim("ok_pair1", [fn(c, k), VSym(("ident", node[3], node[2])), VSym(("variant_access", node))])
    key, (kind, node, pos, cur) = handle(c)
    fields = node[2]
    if n == "next_value":
        if cur is None:
            raise Unsupported("value without a key")
        c.st.mem[key] = VSym((kind, node, pos, None))
        return take(c, c.ty_arg(1), cur[1], None)
    if pos >= len(fields):
        return c.ret(ok(NONE))
    f = fields[pos]
    if n == "next_key":
        c.st.mem[key] = VSym((kind, node, pos + 1, f))
        k = local(c, c.ty_arg(1), DE + "Deserialize", "deserialize")
        if not k:
            raise Unsupported("key type")
        return c.shim("ok_some1", [fn(c, k), VSym(("ident", f[0], pos))])
    c.st.mem[key] = VSym((kind, node, pos + 1, None))
    return take(c, c.ty_arg(1), f[1], "ok_some1")


@model_rx(r"^serde_core::de::VariantAccess::(unit_variant|newtype_variant|tuple_variant|struct_variant)$")
def _(c):
    _, node = sym(deref(c.eng, c.st, c.args[0]), "variant_access")
    kind, payload = node[4], node[5]
    if c.name != kind + "_variant":
        return c.ret(err("another kind of variant"))
    if kind == "unit":
        return c.ret(ok(UNIT))
    if kind == "newtype":
        return take(c, c.ty_arg(1), payload, None)
    return named_visit(c, c.args[-1], payload)


@model_rx(r"^serde_core::de::Deserialize::deserialize$", r"^serde_core::de::impls::<impl serde_core::de::Deserialize<'de> for .*>::deserialize$",
          r"^<.* as serde_core::de::Deserialize<'de>>::deserialize$", r"^smallvec::.*Deserialize<'de> for .*::deserialize$")
def _(c):
    if local(c, c.ty_arg(0), DE + "Deserialize", "deserialize"):
        return False
    return take(c, c.ty_arg(0), sym(c.args[0], "deserializer")[1], None)


@model_rx(r"^serde_core::de::Error::", r"^serde::private::de::missing_field$", r"^serde_core::private::.*missing_field$", r"^serde_core::ser::Error::")
def _(c):
    if c.name == "missing_field" and "private" in c.path:
        return c.ret(err("missing field"))
    return c.ret(VSym(("serde_error", c.name)))


@model_rx(r"^serde_core::", r"^serde::")
def _(c):
    raise Unsupported("serde runtime")
