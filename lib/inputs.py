"""Symbolic inputs: bit vectors of every width, integers, strings, byte slices."""
import lin
from lin import Lin, L, ZERO, ONE
from dom import *
from state import State, BuildState, World, Region

REF = "bv::borrowed::BitVecValueRef"
MUT = "bv::borrowed::BitVecValueMutRef"
OWN = "bv::owned::BitVecValue"


class Inputs:
    def __init__(self, prog, limit=400000):
        lin.reset()
        self.W = World(prog)
        self.W.limit = limit
        self.st = BuildState(self.W)
        self.bv = {}
        self.named = []

    shape = None

    def width(self, name, lo=1):
        self.named.append(name)
        if self.shape is not None:
            # bounded analysis: a fixed number of words, loops are unrolled
            n = L(self.shape.get(name, self.shape.get("*", 2)))
        else:
            n = lin.new_atom("n" + name, 1, 1 << 25)
        r = lin.new_atom("r" + name, 1, 64)
        return n * 64 + r - 64, n

    def words(self, name, w=None, n=None, same=None):
        """a fresh word region of canonical contents"""
        if w is None:
            w, n = self.width(name)
        self.W.inputs[name] = w
        rid = self.st.new_region(eb=64, length=n, base=("src", ("in", name)))
        self.bv[name] = (w, n, rid)
        return rid, w, n

    def wint(self, w):
        return VInt(32, False, w)

    def ref(self, name, like=None, w=None, n=None):
        if like:
            w, n, _ = self.bv[like]
        rid, w, n = self.words(name, w, n)
        return VAdt(REF, 0, (self.wint(w), VSlice(rid, ZERO, n)))

    def recv(self, name, like=None, w=None, n=None, path="$BV"):
        if like:
            w, n, _ = self.bv[like]
        rid, w, n = self.words(name, w, n)
        return VAdt(path, 0, (self.wint(w), VVec(rid)))

    def obj(self, v):
        k = ("arg", self.W.fresh())
        self.st.mem[k] = v
        return VRef(k)

    def nat(self, name, bits=32, lo=0, hi=None, signed=False):
        a = lin.new_atom(name, lo, hi)
        return VInt(bits, signed, a), a

    def word(self, name, bits=64, signed=False):
        """a native integer argument as an opaque machine word"""
        self.W.inputs[name] = L(bits)
        return VInt(bits, signed, Bits(bits, [(ZERO, L(bits), ident(("in", name)))]))
