NOTES = ("Every check extracts the MIR of /repo's working tree with a rustc_private driver and analyses it; nothing of /repo is executed. "
         "Fixed defects and known findings: known-findings.jsonl, DESIGN.md.")
NOTE = ("Every obligation of every abstract trace is discharged for all widths, offsets and data values of the trace; trusted: rustc's MIR, "
        "the summaries of core/alloc/smallvec in lib/, the specification table. A trace the analyser cannot follow is reported as undecided in the evidence (none on the current tree) and not as a violation; "
        "a violation is reported only with a concrete member of the abstract state on which derived and specified result differ.")
OPS, ARI, OWN, BOR = "src/bv/ops.rs", "src/bv/arithmetic.rs", "src/bv/owned.rs", "src/bv/borrowed.rs"

TABLE = [
 dict(id="C01", title="Every produced bit vector is in canonical storage form",
  statement="Every bit vector that the library creates or modifies through its public operations, given canonical operands, is stored in exactly as many 64-bit words as its width needs, and every storage bit at or above its width is zero. This holds for every width from one bit upwards, for every position of the width relative to a word boundary, and for owned and borrowed receivers alike.",
  q="all widths, operand values, offsets, shift amounts and receiver kinds; builds with and without debug assertions",
  why="Equality, hashing and comparison read raw words, so one stray padding bit silently breaks them; the tests sample a few widths and mostly check low words.",
  files=[OPS, ARI, OWN, BOR], mech=[("masking of the top word", ARI), ("word count from width", "src/bv/owned.rs value_vec_zeros")],
  observe=["words() of the result"], note=NOTE),
 dict(id="C02", title="Every operation returns a value of exactly the specified width",
  statement="The width of every result is the one the operation specifies: operand width for arithmetic, bitwise and shift operations, the sum for concatenation, width plus extension for the extensions, msb-lsb+1 for slices, and the requested width for constructors; in-place operations never change the receiver's width.",
  q="all widths and offsets", why="Tests check widths only for the sampled operand sizes.",
  files=[OPS, OWN], mech=[("result allocation", OPS)], observe=["width() of the result"], note=NOTE),
 dict(id="C03", title="Slice, concat, extensions and shifts route every bit to its specified place",
  statement="For every operand width, offset and amount, each bit of a slice, concatenation, zero or sign extension, left shift, logical right shift or arithmetic right shift is exactly the specified operand bit or the specified fill bit, and the operation terminates normally. Shift amounts are taken as unsigned numbers of the full operand width; amounts at or beyond the width yield all fill bits.",
  q="all widths (any number of words), all msb/lsb pairs, all extension amounts, all shift amounts including those whose upper words are non-zero",
  why="Word-boundary cases (offset a multiple of 64, result ending inside or exactly at a word, one-word results of many-word operands) form a grid that tests only sample.",
  files=[OPS, ARI], mech=[("slice / concat / shift kernels", ARI)], observe=["result bits"], note=NOTE),
 dict(id="C04", title="and, or, xor and not apply their truth table to every bit",
  statement="For every width, bit i of the result of and, or, xor and not is the corresponding boolean function of bit i of the operands, for every i below the width.",
  q="all widths and values", why="Tests compare against a reference on sampled widths.", files=[OPS, ARI], mech=[("bitwise kernels", ARI)],
  observe=["result bits"], note=NOTE),
 dict(id="C05", title="Comparisons and equality agree with the integer order at any width",
  statement="For two operands of equal width, is_equal, is_not_equal and the eight unsigned and signed order predicates return exactly the truth value of the corresponding relation on the unsigned, respectively two's complement, integers the operands denote. The order is therefore total and consistent with equality, whatever the width and in whichever word the operands differ.",
  q="all widths and operand pairs", why="Whether a high word decides, a low word decides, or all words are equal needs values that random tests at large widths practically never produce.",
  files=[OPS, ARI], mech=[("word-wise comparison from the most significant word", ARI)], observe=["returned bool"], note=NOTE),
 dict(id="C06", title="add, sub, negate and mul compute modulo two to the width",
  statement="add, sub and negate return the exact sum, difference and negation of the operands modulo 2^width for every width, with carries and borrows propagated across all words. mul returns the product modulo 2^width for widths of at most one word (wider operands are rejected, a recorded finding).",
  q="all widths and operand values, every carry chain", why="Carry chains across several words with all-ones words are measure-zero for sampled operands.",
  files=[OPS, ARI], mech=[("adc / sbb chains", ARI)], observe=["result value"], note=NOTE),
 dict(id="C07", title="Native integer conversions and bit predicates are exact",
  statement="from_u64, from_i64, from_bool, zero, ones, tru and fals construct the value they name at the given width; to_u64, to_i64 and to_bool return the exact (unsigned, two's complement, boolean) value whenever it fits and None otherwise. is_zero, is_negative, is_bit_set, is_tru and is_fals report exactly the property of the denoted value.",
  q="all widths and values", why="Fits/does-not-fit boundaries depend on all upper words and on the partial top word.",
  files=[OPS, OWN], mech=[("sign extension and masking", ARI)], observe=["returned values"], note=NOTE),
 dict(id="C08", title="Byte and big-integer conversions denote the same number",
  statement="The little-endian bytes of a value are exactly its bits in ceil(width/8) bytes with zero padding, and a value built from bytes has exactly those bits up to the width. Conversions to unsigned and signed big integers yield the value's exact unsigned, respectively two's complement, number with the correct sign, and values built from big integers are that number modulo 2^width. A value built from a big integer without giving a width denotes exactly that number.",
  q="all widths, byte counts that fit, big integers of any size and sign", why="Partial top bytes, top words and sign handling at exact word multiples need particular widths.",
  files=["src/bv/io/bytes.rs", "src/bv/io/bigint.rs", OPS, OWN], mech=[("byte packing", "src/bv/io/bytes.rs"), ("digit copy, negate on minus", "src/bv/io/bigint.rs")],
  observe=["returned bytes / big integers / values"],
  note=NOTE + " Negative big integers spanning fewer words than the target are decided for up to three words on either side (bounded), everything else for all sizes."),
 dict(id="C09", title="Binary, hex and decimal text shows exactly the denoted number",
  statement="Unsigned binary and hexadecimal text has exactly width, respectively ceil(width/4), lower-case digits, most significant first, and digit i is the i-th group of bits. Signed text shows a minus sign exactly for negative values followed by the magnitude in width-1 bits (all width bits for the most negative value, and at least one digit). Decimal text of a value below 2^128 is its plain decimal numeral.",
  q="all widths and values (decimal: values below 2^128)", why="Digit positions depend on width modulo 4 and 64 and on which word a digit falls in; negation of extreme values is never sampled.",
  files=["src/bv/io/strings.rs", OPS], mech=[("digit loops over words", "src/bv/io/strings.rs")], observe=["returned string"], note=NOTE + " The numeral itself is produced by core's integer Display, which is trusted."),
 dict(id="C10", title="In-place updates overwrite exactly the specified bits and nothing else",
  statement="assign, clear, assign_ones, assign_from_u64, assign_from_i64, set_bit and clear_bit leave the receiver holding exactly the specified value of its unchanged width, independent of its previous contents except for the bits set_bit and clear_bit must keep. No stale bit of the previous value survives in any word.",
  q="all widths, previous contents, new values, positions and mutable receiver kinds", why="Stale upper words only show when the receiver previously held a wider magnitude.",
  files=[OPS, ARI], mech=[("clear before assign", OPS)], observe=["receiver words after the call"], note=NOTE),
 dict(id="C11", title="Owned and borrowed forms of a value are interchangeable",
  statement="Converting between owned values, shared views and mutable views, and cloning, preserves width and every bit; width() and words() of each form report exactly that. Two values compare equal exactly if their widths and all their bits agree, whichever form each side has, and equal values hash alike in owned and borrowed form. A mutable view refers to the storage of the value it was made from. cmp and partial_cmp of owned values are one total order that is Equal exactly for equal values.",
  q="all widths and values, all pairs of forms, including values of different widths", why="Hash tables and generic code mix the forms; a divergence shows only for particular width and padding combinations.",
  files=[BOR, OWN], mech=[("PartialEq / Hash / From impls", BOR), ("PartialEq / Hash / From impls", OWN)], observe=["equality, hash input, width, words"], note=NOTE),
 dict(id="C12", title="Indexed views select exactly their words and never overlap mutably",
  statement="For every store of words and every index within it, get_ref and get_mut_ref return views of the recorded width over exactly the recorded words of the store, for one, two or three indices, wherever the indices lie relative to each other. A request for a mutable view together with a shared view that overlaps it never returns.",
  q="all stores, index positions, widths and relative orders", why="The split-borrow arithmetic depends on the relative position of up to three ranges; tests cover a few layouts.",
  files=["src/bv/indexed.rs"], mech=[("split_borrow_1 / split_borrow_2 / move_range", "src/bv/indexed.rs")], observe=["width and words of the returned views"], note=NOTE),
 dict(id="C13", title="The value interner returns equal indices exactly for equal values",
  statement="get_index, together with the word store it appends to, yields an index whose recorded width and words denote exactly the given value. Two calls return the same index exactly if the values have the same width and bits, whatever was interned before, and values interned earlier keep their index and contents. is_zero and is_one on an index report whether the interned value is zero, respectively one.",
  q="all interner histories (an arbitrary table satisfying the interner's invariant), all values and widths", why="Deduplication depends on hash table state and on the split between small and large values; tests intern a handful of values.",
  files=["src/bv/indexed.rs"], mech=[("ValueInterner::get_index", "src/bv/indexed.rs")], observe=["returned index", "words of the store"],
  note=NOTE + " is_zero/is_one of values wider than the inline limit are recorded findings."),
 dict(id="C14", title="Dense arrays store and return exactly the written elements",
  statement="A dense array behaves as a function from indices to values: a new array returns the default at every index, a store changes exactly the element at its index to exactly the stored value, clear makes every element zero, and select returns the current element with the data width of the array. This holds for every index width, data width and element representation.",
  q="all index widths up to 30 bits (25 for allocation), all data widths up to 192 bits (1, 2-8, 9-64, two and three words per element), all indices and values",
  why="Each representation has its own packing; aliasing of neighbouring elements shows only at particular widths and indices.",
  files=["src/array/owned.rs", "src/array/ops.rs"], mech=[("DenseArrayImpl representations", "src/array/owned.rs")], observe=["select after store / clear / construction"], note=NOTE),
 dict(id="C15", title="Sparse arrays store and return exactly the written elements",
  statement="A sparse array behaves as a function from indices to values: a new array returns the default at every index, a store changes exactly the element at its index to exactly the stored value (also when the default is stored over another value), clear makes every element the zero value, and select returns the current element with the data width of the array.",
  q="arbitrary prior contents (any hash table), all index widths and data widths in each representation, all indices and values",
  why="The behaviour depends on the history of stored, overwritten and default values and on the key representation chosen by widths.",
  files=["src/array/owned.rs"], mech=[("SparseArrayImpl representations", "src/array/owned.rs")], observe=["select after store / clear / construction"], note=NOTE),
 dict(id="C16", title="Converting arrays between sparse and dense form keeps every element",
  statement="make_dense and the conversion to a sparse array preserve index width, data width and the element at every index; converting an array that already has the requested form changes nothing. The default value of a converted array does not depend on the iteration order of a hash table.",
  q="all element values; sparse to dense with arbitrary index width up to 25 bits and two stored entries in either order; dense to sparse for two and four elements",
  why="The default value is chosen by frequency, with ties; only particular value distributions expose a lost element.",
  files=["src/array/owned.rs"], mech=[("From impls between DenseArrayValue and SparseArrayValue", "src/array/owned.rs")], observe=["select after conversion"],
  note=NOTE + " Array sizes and entry counts are bounded as listed in the evidence (shapes); widths and values are arbitrary.", level="other"),
 dict(id="C17", title="Array equality holds exactly when every element is equal",
  statement="is_equal and == of two arrays of the same index and data width are true exactly if the arrays have the same element at every index, whichever of the two forms each array has, whichever indices a sparse array stores explicitly and whatever its default is. Equality is therefore symmetric and independent of representation. For arrays of different index or data width is_equal is None and == is false.",
  q="all element and default values; every combination of stored indices for arrays of two (thorough: four) elements, both forms on both sides",
  why="Different defaults with complementary stored entries denote equal arrays; such pairs do not occur in tests.",
  files=["src/array/owned.rs"], mech=[("is_equal of dense, sparse and mixed pairs", "src/array/owned.rs")], observe=["returned bool"],
  note=NOTE + " The number of elements is bounded as listed in the evidence (shapes); widths and values are arbitrary.", level="other"),
 dict(id="C18", title="Text is parsed to exactly the number it denotes, or rejected",
  statement="from_str_radix and assign_from_str_radix (radix 2, 10, 16) accept an optional sign followed by at least one digit below the radix, in either letter case and with any number of leading zeros, and yield that number, or its two's complement after a minus sign, at the requested width. A magnitude with a bit at or above the width is rejected as ExceedsWidth, any other text as InvalidDigit, and neither ever panics; the empty text is zero. from_bit_str and from_hex_str do the same with a width of one, respectively four, bits per digit plus one for a minus sign. A target of assign_from_str_radix stays a canonical value of its width whatever the outcome.",
  q="all widths of one to three words (thorough: four); texts of up to 193 characters around every word boundary with arbitrary digit values",
  why="Three different parsers serve one, two and more words; overflow, leading zeros, signs and invalid characters at word boundaries combine in ways no sample of texts covers.",
  files=["src/bv/io/strings.rs", "src/bv/owned.rs", "src/bv/ops.rs"], mech=[("digit loops of the binary and hex parser", "src/bv/io/strings.rs"), ("width check after parsing", "src/bv/io/strings.rs")], observe=["returned value or error kind", "target words after the call"],
  note=NOTE + " Texts are the patterns listed in the evidence (fixed length, free digits 0-1 resp. 0-7, fixed letters and signs); the width within its word count is arbitrary. core's integer parser is trusted. Radix 10 above 128 bits is a known finding (stub).", level="other"),
 dict(id="C19", title="Fixed point conversion yields exactly the rational number denoted",
  statement="With the fraction1 feature, to_unsigned_fixed_point and to_signed_fixed_point of a value with f fraction bits return exactly the (signed) value divided by 2^f, sign, numerator and denominator, for every width and every f below 64 whenever the magnitude fits the fraction's 64-bit numerator, and None otherwise. No width and no f up to the width panics.",
  q="all widths, all f up to the width, all values", why="Boundaries are the word size, f = 0, f = width, negative values and the most negative value, each combined with the width.",
  files=["src/bv/ops.rs"], mech=[("to_unsigned_fixed_point, to_signed_fixed_point", "src/bv/ops.rs")], observe=["returned fraction"],
  note=NOTE + " fraction's constructors and From/Neg are summarised. A negative number of more than 64 bits may give None or the exact fraction."),
 dict(id="C20", title="Builds with debug assertions reject misuse instead of answering",
  statement="In a build with debug assertions no operation returns normally when its documented precondition is violated: binary operations, comparisons and assign on operands of different widths, slices with msb below lsb or not below the width, set_bit and clear_bit at or above the width, construction and assignment from a native integer that does not fit, fixed point conversion with more fraction bits than bits, and array select and store with an index or data of the wrong width. Such a call panics; it neither answers nor loops.",
  q="all widths, positions, words and relations between them", why="Tests never pass invalid arguments, and a check that is too weak by one or misses one form of operand passes all of them.",
  files=["src/bv/ops.rs", "src/array/owned.rs"], mech=[("debug_assert! preconditions", "src/bv/ops.rs"), ("debug_assert! preconditions", "src/array/owned.rs")],
  observe=["normal return"], note=NOTE),
 dict(id="C21", title="Serializing and deserializing gives back the same value",
  statement="With the serde1 feature, serialization of every bit vector value, dense array, sparse array and array value succeeds, and deserializing its output succeeds and yields the same value: same width, words, representation, index and data width and element table, both for formats that identify fields by name and for formats that identify them by position.",
  q="all values of every representation", why="Each representation has its own serialized shape and each field may be skipped, renamed or converted on one side only; tests serialize nothing.",
  files=["src/bv/owned.rs", "src/array/owned.rs"], mech=[("derived Serialize / Deserialize", "src/bv/owned.rs"), ("derived Serialize / Deserialize", "src/array/owned.rs")],
  observe=["deserialized value"], note=NOTE + " serde's impls for foreign types are leaves assumed to round-trip."),
 dict(id="C22", title="Iterating a sparse array yields each non-default entry exactly once",
  statement="non_default_entries of a sparse array yields exactly one pair for every index whose element differs from the default, with the index at the index width and the element at the data width of the array, and then ends. This holds after any sequence of new, store and clear, also when the default is stored over another value, and after conversion from a dense array; only the order is unspecified.",
  q="all key and data widths in each representation, all values; tables of up to three entries in either iteration order, histories of two stores and a clear, converted arrays of two to four elements", why="The entries depend on the history of stored and overwritten values, on the representation chosen by the widths and on the hash table's order.",
  files=["src/array/owned.rs"], mech=[("SparseArrayValue::non_default_entries", "src/array/owned.rs"), ("SparseArrayEntryIter::next", "src/array/owned.rs")],
  observe=["sequence of yielded pairs"], note=NOTE + " The number of table entries is bounded (three), widths and values are arbitrary.", level="other"),
 dict(id="C23", title="Clones and wrapped values equal the original and are independent of it",
  statement="A clone of a bit vector, array, sparse array, interner or Value equals its original, and a later change to either one (set_bit, store, clear, interning) never changes the other. Converting a Value back succeeds exactly for the kind it wraps and gives back the wrapped value; two Values are equal only if they are of the same kind and their contents are equal.",
  q="all values and representations, arbitrary prior contents, all indices and data", why="Independence has to hold for every representation and every later operation; tests only clone small values.",
  files=["src/bv/owned.rs", "src/array/owned.rs", "src/bv/indexed.rs", "src/lib.rs"], mech=[("Clone impls", "src/array/owned.rs"), ("Value, TryFrom<Value>", "src/lib.rs"), ("ValueInterner::clone", "src/bv/indexed.rs")],
  observe=["elements of the other copy", "result of try_from", "returned bool"], note=NOTE),
 dict(id="C24", title="Results depend on the arguments alone; values can cross threads",
  statement="The library keeps no state outside of the values passed to it: the result and effect of every operation depend on its arguments alone, not on earlier calls, the running thread, the environment, the clock, addresses or randomness (the seed of a hash table may decide the order of iteration, nothing else). An operation that takes a shared reference changes nothing reachable through it. Every public type can be sent to and shared between threads.",
  q="all operations, call histories, threads and hash seeds", why="A cached or ambient result is right on the first calls a test makes; thread-safety of a type is not exercised by single-threaded tests.",
  files=["src/lib.rs", OWN, "src/bv/indexed.rs", "src/array/owned.rs"], mech=[("plain owned data in every type", OWN), ("tie-breaking by value", "src/array/owned.rs")],
  observe=["results of repeated calls", "compilation of a program that shares values between threads"],
  note="Every function body, static and type of the crate is inspected; calls into foreign crates are judged by name. Independence of the hash order is derived for the choice of a default value (up to four elements); equality and iteration are covered by C17 and C22.",
  technique="effect and escape analysis over the type-checked program (statics, type structure, call graph, auto traits)", level="other"),
]
NA = []
