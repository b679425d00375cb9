"""Which cases and structural rules decide which property."""

ASSUME = [
    "inputs are canonical bit vectors of width 1 .. 2^31-1 (ceil(width/64) words, no bit at or above the width) unless a case says otherwise",
    "operands of binary operations have equal widths where the API requires it",
    "allocation succeeds; the summaries of core/alloc/smallvec functions in lib/models.py and lib/seqs.py are faithful",
    "undecided traces (listed in the evidence) are not covered",
]


class Prop:
    def __init__(self, tags=(), rules=(), cats=None, level="proof", rule="", explanation="", assumptions=ASSUME, names=(), exclude=()):
        self.tags, self.rules, self.cats, self.level = set(tags), tuple(rules), cats, level
        self.rule, self.explanation, self.assumptions = rule, explanation, list(assumptions)
        self.names, self.exclude = set(names), set(exclude)

    def wants(self, c):
        if c.name in self.exclude:
            return False
        return c.name in self.names or bool(self.tags & set(c.tags))


AI = ("path-partitioned abstract interpretation of the MIR with symbolic widths and offsets: every bit of every result word "
      "is derived as a function of input bits (or as a number modulo 2^k) and compared with the specified function")

PROPS = {
    "C01": Prop(["result"], cats={"canon"}, rule=AI + "; here: word count = ceil(width/64), bits at or above the width are constant 0"),
    "C02": Prop(["result"], cats={"width"}, rule=AI + "; here: the width field equals the specified linear expression"),
    "C03": Prop(["route"], rule=AI),
    "C04": Prop(["bitwise"], rule=AI),
    "C05": Prop(["compare"], rule=AI + "; orders are derived from the decided word comparisons of the trace"),
    "C06": Prop(["arith", "mulwide"], rule=AI),
    "C07": Prop(["native", "construct"], rule=AI),
    "C08": Prop(["bytes", "bigint"], rule=AI),
    "C09": Prop(["text"], rule=AI + "; the character at one arbitrary index is compared, so all indices are covered"),
    "C10": Prop(["inplace"], rule=AI),
    "C11": Prop(["view"], rule=AI + "; equality is compared with the equality of (width, bits), hashing as a pair of traces over equal contents"),
    "C12": Prop(["indexed"], rule=AI + "; a view is compared by region, first word, word count and width; overlapping requests must have no returning trace"),
    "C13": Prop(["interner"], rule=AI + "; the interner's table is an arbitrary hash map with the interner's invariant, assumed before and proved after every call"),
    "C14": Prop(["dense"], rule=AI + "; a call is followed by a read at an arbitrary index, so every index is covered"),
    "C15": Prop(["sparse"], rule=AI + "; the table is an arbitrary hash map, a call is followed by a read at an arbitrary index"),
    "C16": Prop(["convert"], level="other", rule=AI + "; array sizes are explicit where a loop over a hash table decides the outcome (listed as shapes)"),
    "C17": Prop(["areq"], level="other", rule=AI + "; arrays of two and four elements with arbitrary element values (listed as shapes)"),
    "C18": Prop(["parse"], level="other", rule=AI + "; texts are patterns of fixed and free digits around the word boundaries (listed as shapes), "
                "the width is symbolic within 1 .. 3 words (thorough: 4)"),
    "C19": Prop(["fixed"], rule=AI + "; sign, numerator and denominator of the returned fraction are compared"),
    "C20": Prop(["misuse"], rule=AI + "; arguments are arbitrary, also outside of the precondition; every returning trace of the build with debug assertions "
                "must imply the precondition", assumptions=["builds with debug assertions; bit vectors themselves are canonical"] + ASSUME[2:]),
    "C21": Prop(["serde"], rule=AI + "; the serializer records a data model tree, the deserializer plays it back by field name or by position; "
                "leaf types outside of the crate round-trip by assumption",
                assumptions=ASSUME + ["serde's own implementations for integers, SmallVec, Vec and HashMap write values that their counterparts read back",
                                      "the format represents the serde data model faithfully (a format without non-string map keys cannot hold a table keyed by values)"]),
    "C22": Prop(["iterate"], level="other", rule=AI + "; tables with up to three entries in any order, or after a history of stores (listed as shapes and cases)"),
    "C23": Prop(["clone"], rule=AI + "; the table of a sparse array is an arbitrary hash map, a call is followed by a read at an arbitrary index"),
    "C24": Prop([], names=["to_sparse_order"], rules=["pure"], level="other",
                rule="effect analysis of every function body, static and type of the type-checked crate: no static, thread-local or field with mutable state or "
                "shared ownership, no call that reads the environment, clock, thread, random seed or an address, no operation outside of the safe language, auto traits of the "
                "public types; the default value of a converted array is derived under both iteration orders of the hash table",
                assumptions=["the compiler's checks of safe code", "foreign functions other than those named in lib/rules.py depend on their arguments alone"]),
}
