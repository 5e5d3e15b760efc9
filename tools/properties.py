"""The properties, as written to properties.jsonl, and how each is decided."""
BV = 'hwtypes/bit_vector.py'
ABC = 'hwtypes/bit_vector_abc.py'
UTIL = 'hwtypes/bit_vector_util.py'
SMT = 'hwtypes/smt_bit_vector.py'
Z3 = 'hwtypes/z3_bit_vector.py'

PROPS = []


def P(id, title, statement, over, forall, why, files, mechanism, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      forall=forall, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note))


P('B01', 'Concrete vector arithmetic is exact modulo 2^n',
  'For concrete bit vectors of one width n, add, sub, mul, negate, not, and/or/xor '
  'and their negations, shifts (any amount, including >= n), rotates, unsigned '
  'division and remainder return exactly the mathematical result modulo 2^n '
  '(x/0 is all ones, x%0 is x), by method and by operator. The result has the '
  "receiver's own type, arithmetic right shift and >> of signed types replicate the "
  'sign, and no operation changes its operands.',
  ['inputs', 'programs'],
  'all widths >= 0, all operand patterns, all vector types and subclasses, any '
  'sequence of operations',
  'tests sample a few widths with random operands and mostly compare with the same '
  'Python operator; boundary amounts, wide vectors and type preservation of '
  'subclasses are not reached.',
  [BV, ABC], [('bv* methods and operator table', BV), ('derived nand/nor/xnor', ABC)],
  'Hypothesis differential testing against Python-int model + small-width enumeration',
  'Python integers are the oracle.')

P('B02', 'Signedness, comparison, carry and overflow agree with integers',
  'Unsigned and signed comparisons (methods, and operators by the type\'s own '
  'signedness) order vectors exactly like the integers they denote and return a Bit; '
  'bvcomp gives the one-bit equality. Signed division and remainder are Python floor '
  'division on the signed values (x/0 all ones, x%0 = x). adc returns the exact n-bit '
  'sum and carry-out for any carry-in, and overflow(a, b, a+b) holds exactly when the '
  'signed sum does not fit.',
  ['inputs'], 'all widths >= 1, all operand patterns and carries, all vector types',
  'tests draw random operands at a few widths; sign boundaries, one-bit vectors and '
  'most-negative values are left to luck.',
  [BV, ABC], [('bvs*/bvu* comparisons', BV), ('bvsle/bvsgt/bvsge derived', ABC),
              ('adc, overflow', BV)],
  'Hypothesis differential testing against Python-int model + small-width enumeration',
  'Python integers are the oracle.')

P('B03', 'Slicing, concatenation and extension move bits exactly',
  'Indexing and slicing a vector (negative, omitted, out-of-range bounds and strides '
  'included) select exactly the bits that Python list indexing of its LSB-first bits '
  'selects; concat puts the receiver in the low bits; repeat, zext, sext and ext '
  '(sign-extending for signed types) produce the expected wider pattern. Results '
  'belong to the same unsized vector type with exactly the resulting width; bad '
  'indices, foreign concat operands and negative amounts are refused.',
  ['inputs'], 'all widths, patterns, index/slice triples, extension amounts (0 too), '
  'all vector types',
  'tests use fixed slices and small extension amounts and never extension by 0 of '
  'signed vectors, strides or negative bounds systematically.',
  [BV], [('__getitem__, concat, repeat, sext, zext, ext', BV)],
  'Hypothesis differential testing against Python list slicing + enumeration of slices',
  'Python lists are the oracle.')

P('B04', 'Construction and conversion round-trip',
  'A vector built from an int, bool, Bit, bit sequence, object with __int__ or another '
  'vector holds that value modulo 2^n (sequences LSB first, short ones zero-filled); '
  'anything else raises TypeError. Every observer (as_uint, as_sint, int, bool, bits, '
  'bool list, binary strings, str, repr, len/size) reports the same pattern, rebuilding '
  'from any of them gives the vector back, implicit sizing (T(value) without a size) '
  'takes the least size of at least 1 that the value needs and keeps the value, and '
  'random(n) yields in-range vectors of the requested type.',
  ['inputs'], 'all widths, all source kinds and values, all vector types',
  'tests convert a handful of values at a few widths.',
  [BV, ABC], [('BitVector.__init__, observers, random', BV),
              ('implicit sizing in the metaclass call', ABC)],
  'Hypothesis round-trip and model-based testing', 'Python integers are the oracle.')

P('B05', 'Operand coercion is symmetric and width mismatches are refused',
  'An int or bool operand, on either side of any arithmetic, bitwise, shift, division '
  'or comparison operator, acts as the vector of that value modulo 2^n, and so does a '
  'sequence of n bits or an object with an integer value. Between two vector types of one '
  'width the result has the type of the left operand. Vectors of '
  'different widths never combine: every binary operation raises '
  'InconsistentSizeError. Operators on unrelated objects raise TypeError (== is False), '
  'unless the other object implements the reflected operator, which then decides.',
  ['inputs'], 'all widths, ints of any sign and size on both sides, all operators, '
  'all vector types',
  'tests only try a few literals on the right and one or two mismatched widths.',
  [BV], [('_coerce, bv_cast, dispatch_oper, dispatch_roper', BV)],
  'Hypothesis differential testing against Python-int model', 'Python integers are the oracle.')

P('B06', 'Bit assignment changes exactly one bit of exactly one vector',
  'Assigning x[i] = b (int, bool or Bit; negative i counts from the top) changes that '
  'bit of x and nothing else; invalid indices, values and slices are refused without '
  'effect. Vectors obtained from x by any operation, copy or ite are independent '
  'values: a later assignment to one never shows through another. Lists read from a '
  'vector (bits(), as_bool_list()) belong to the caller: changing one changes no vector. '
  'The same holds for SMT and z3 vectors.',
  ['histories'], 'all histories of derivations, assignments and rejected assignments',
  'tests assign bits of one fresh vector and never look at other live vectors.',
  [BV], [('__setitem__ and freshly built results', BV)],
  'Hypothesis stateful (history) testing against a list-of-ints model',
  'Python integers are the oracle.')

P('B07', 'Bit logic and ite select exactly',
  'Bits obey Boolean algebra with Bits, bools and 0/1 on either side (the result has the '
  'type of the left Bit), and convert to and from bool, int and repr faithfully. cond.ite(t, f), with a Bit or a vector '
  'condition (true iff non-zero), returns the selected branch with its type, through '
  'nested tuples and bit-vector-protocol objects, leaving both branches unchanged. '
  'Branches that do not fit (width, arity, bit versus vector, plain ints, different '
  'families) raise TypeError, whichever would be selected.',
  ['inputs', 'programs'], 'all Boolean programs; all branch shapes, values and conditions',
  'tests use random flat tuples and a fixed protocol class.',
  [BV, UTIL], [('Bit', BV), ('build_ite', UTIL)],
  'Hypothesis model-based testing', 'Python bools are the oracle.')

P('B08', 'A polymorphic ite value behaves as the selected branch',
  'When ite merges vectors (or Bits) of the same width but different types of one '
  'family, every later operation on the result, however long the chain and however '
  'many such merges are nested, gives the value the selected branch would have given: '
  'sign-dependent operators follow the selected type, methods defined by both types '
  'dispatch to the selected one, methods of only one are absent.',
  ['inputs', 'programs'],
  'all merges of types, selections, chains of operations and int operands',
  'one test runs a fixed chain for four condition values.',
  [UTIL], [('PolyVector/PolyBit class construction and build_VCall', UTIL)],
  'Hypothesis metamorphic/model-based testing',
  'the model tracks signedness of the selected branch; int()/str()/repr() of merged '
  'values are not asserted.')

P('B09', 'Equal vectors hash alike and work as dictionary keys',
  'Two vectors (or Bits) of one type holding the same value hash equally however each '
  'was computed, and equality is exactly value equality, so dictionaries and sets keyed '
  'by vectors of one type behave as if keyed by their values under any history of '
  'insertions, lookups and deletions.',
  ['inputs', 'histories'], 'all widths, values and dict operation histories',
  'tests check that a few hashes are equal.',
  [BV], [('__hash__/__eq__ of Bit, BitVector and numeric vectors', BV)],
  'Hypothesis stateful testing against a dict model', 'Python dicts are the oracle.')

P('B10', 'Vector types form one cached lattice',
  'T[n] is one and the same class every time while any reference to it lives, has '
  'size n and unsized type T, and is a subclass of U[m] exactly when n = m and T is a '
  'subclass of U, for user-defined vector types too. Sized types cannot be sized '
  'again, one class cannot inherit two sizes, and negative or non-integer widths are '
  'refused. Classes with several vector bases or mixins follow the same rules.',
  ['histories', 'configurations'],
  'all forests of user types and histories of parameterisation and collection',
  'tests check fixed pairs of built-in types.',
  [ABC], [('AbstractBitVectorMeta.__getitem__ and class cache', ABC)],
  'Hypothesis stateful testing against the drawn subclass forest', 'no model beyond the forest.')

P('B11', 'A vector back end inherits the derived semantics',
  'A vector family defined by a user from AbstractBit and AbstractBitVector with the '
  'primitive operations only gets the rest from the library: nand/nor/xnor and the '
  'derived comparisons compute what their names say; T(value) without a size takes the '
  'size of the value (bit length, length, size; at least 1) and refuses what has none; '
  'T[n] is sized and cached; ite merges two branches of its own types into a value that '
  'acts as the branch selected and is an instance of the types common to both; '
  'rebind_type moves an ADT into the family. Families never mix: ite over branches of '
  'two families or two widths raises TypeError, and each value reports its own family.',
  ['inputs', 'configurations'],
  'all widths, patterns, pairs of types of a back end, and ADTs over its vectors',
  'tests use the three back ends shipped, which override most defaults.',
  [ABC, UTIL, 'hwtypes/adt_util.py'], [('derived operations, implicit sizes, TypeFamily', ABC),
                        ('build_ite, PolyVector, PolyBit', UTIL),
                        ('rebind_type', 'hwtypes/adt_util.py')],
  'Hypothesis differential testing of a minimal back end against a Python-int model',
  'the primitive operations of the back end are those of the check.')

P('S01', 'The pysmt back end computes the concrete semantics',
  'Any program of vector and Bit operations built from SMT variables and constants, '
  'with the variables replaced by values, evaluates to exactly what the concrete types '
  'compute on those values, with the corresponding result types and widths; with '
  'constant inputs only, it does so without any replacement. Constants built from ints, '
  'bools, concrete vectors, bit lists or terms hold the value modulo 2^n; '
  'widths that do not match, bad indices and foreign operands are refused.',
  ['programs', 'inputs'], 'all programs over all operations, widths and values, for '
  'every choice of symbolic and constant inputs',
  'tests only check that the result is an instance of the right type.',
  [SMT], [('SMTBit, SMTBitVector, SMTSIntVector operations', SMT)],
  'Hypothesis-generated programs, differential against a Python-int model',
  "pysmt's substitute and simplify evaluate terms.")

P('S02', 'The z3 back end computes the concrete semantics',
  'Any program of vector and Bit operations built from z3-backed variables and '
  'constants, with the variables replaced by values, evaluates to exactly what the '
  'concrete types compute on those values, with the corresponding result types and '
  'widths. Constants hold the value modulo 2^n; beside a vector, ite takes ints, Bits '
  'and concrete vectors as values of its type; widths that do not match and bad '
  'indices are refused.',
  ['programs', 'inputs'], 'all programs over all operations, widths and values, for '
  'every choice of symbolic and constant inputs',
  'tests only check that the result is an instance of the right type.',
  [Z3], [('z3Bit, z3BitVector, z3SIntVector operations', Z3)],
  'Hypothesis-generated programs, differential against a Python-int model',
  "z3's substitute and simplify evaluate terms.")

P('S03', 'Symbolic variables are fresh and names are honoured',
  'A variable created without a name, or with a prefix, is a symbol different from '
  'every live variable and from every symbol in a live expression, and keeps its '
  'prefix. An explicitly named variable is the symbol of that name; naming a second '
  'one while the first lives raises ValueError, afterwards the name is free. Naming a '
  'constant, giving both name and prefix, or a non-string name is refused.',
  ['histories'], 'all histories of creation, expression building, dropping and '
  'collection, with names chosen to collide with generated ones',
  'tests create two variables with one prefix once.',
  [SMT, Z3, 'hwtypes/smt_int.py'],
  [('_gen_name and _name_table', SMT), ('_gen_name and _name_table', Z3)],
  'Hypothesis stateful testing against a set-of-names model', 'reserved V_<n> names excluded.')

P('S04', 'Substitution is simultaneous and semantic',
  'Substituting terms for variables in a symbolic vector or Bit replaces all of them at '
  'once (swaps do not chain): evaluating the result equals evaluating the original '
  'with each variable bound to the value of its replacement; a compound term is '
  'replaced wherever it occurs, outermost first. The receiver is unchanged '
  'and the result keeps kind and width.',
  ['inputs', 'programs'], 'all expressions, substitution sets and values',
  'one test substitutes two variables in one expression.',
  [SMT], [('substitute', SMT)],
  'Hypothesis metamorphic testing', "pysmt's evaluation is trusted.")

P('S05', 'Symbolic integers compute integer arithmetic',
  'SMTInt expressions over variables, constants and ints on either side evaluate to '
  'integer arithmetic and comparisons (// is Euclidean division, as in SMT-LIB), and '
  'as_uint, as_sint and SMTInt(vector) denote the unsigned, signed and unsigned value '
  'of a symbolic or constant vector of any width. Ints, bools, objects with __int__ and '
  'other SMTInts are accepted where a value is, foreign objects are refused.',
  ['inputs', 'programs'], 'all programs, integers and vector widths',
  'tests solve for a few small random values and convert one vector.',
  ['hwtypes/smt_int.py', SMT], [('SMTInt operators', 'hwtypes/smt_int.py'),
                                ('as_uint/as_sint', SMT)],
  'Hypothesis-generated programs, differential against Python ints',
  "pysmt's evaluation is trusted.")

P('S06', 'Formula constructors mean what they print',
  'And, Or and Implies, nested arbitrarily over SMTBits and given as any iterable, '
  'convert to the SMTBit with the Boolean meaning of the tree (empty And true, empty Or '
  'false) every time they are asked; serialize prints exactly that tree with the given '
  'line prefix and indent; operands that are neither SMTBits nor constructors are '
  'refused.',
  ['inputs'], 'all formula trees, assignments, prefixes and indents',
  'one fixed formula is printed and the two empty ones evaluated.',
  ['hwtypes/smt_utils.py'], [('And, Or, Implies', 'hwtypes/smt_utils.py')],
  'Hypothesis differential testing against an independent evaluator and printer',
  "pysmt's evaluation is trusted.")

P('S07', 'Symbolic ite selects, through tuples, protocols and mixed types',
  'ite with a symbolic or constant SMT condition (Bit, or vector tested for non-zero) '
  'evaluates to the selected branch for nested tuples, protocol objects and vectors; '
  'merging differently signed vectors gives a value whose later sign-dependent '
  'operations follow whichever branch the condition selects. Branches that do not fit '
  'raise TypeError, and a symbolic Bit never converts to bool.',
  ['inputs', 'programs'], 'all branch shapes, conditions, chains of operations',
  'tests compare a few fixed terms structurally.',
  [SMT, UTIL], [('SMTBit.ite', SMT), ('build_ite, build_VCall', UTIL)],
  'Hypothesis model-based testing with symbolic conditions', "pysmt's evaluation is trusted.")

FPV = 'hwtypes/fp_vector.py'
FPA = 'hwtypes/fp_vector_abc.py'
SFP = 'hwtypes/smt_fp_vector.py'

P('F01', 'Floating-point arithmetic is correctly rounded in its format',
  'For concrete FPVectors of one type, add, sub, mul, div, sqrt, fma, rem, abs, neg, '
  'min, max and round-to-integral (methods and operators; of both zeros min is -0 and '
  'max +0) return the exact real result '
  "rounded once in the type's format and rounding mode: subnormals, overflow to "
  'infinity or to the largest value, signed zeros, and infinities/NaN as IEEE-754 '
  'prescribes; a format that is not IEEE compliant flushes subnormals to a zero of '
  'their sign and has no NaN. The 11-bit/52-bit format agrees with the machine double.',
  ['inputs'], 'all formats (exponent >= 2, mantissa >= 1 bits), rounding modes, both '
  'compliance settings, all operands',
  'tests compare random operands of one or two formats with the machine float; '
  'subnormals, halfway cases, directed rounding and small formats are not reached.',
  [FPV, FPA], [('_fp_wrap and the context manager', FPV)],
  'Hypothesis differential testing against an exact rational model + small-format '
  'enumeration',
  'the rational model in lib/fpmodel.py, itself compared with machine doubles.')

P('F02', 'Bit patterns and floating-point values correspond one to one',
  'reinterpret_from_bv and reinterpret_as_bv are inverse for every pattern of a format '
  '(NaN patterns map to one quiet NaN; in a non-IEEE format subnormal patterns and '
  'NaN are replaced as the format demands), with sign, exponent and mantissa at their '
  'IEEE positions; the classification predicates (normal, subnormal, zero, infinite, '
  'NaN, negative, positive; zeros and NaN are neither negative nor positive) agree '
  'with the pattern. Vectors of another width are refused.',
  ['inputs'], 'all formats, all bit patterns (small formats enumerated)',
  'tests round-trip random normal values of a few formats.',
  [FPV], [('reinterpret_from_bv, reinterpret_as_bv', FPV), ('fp_is_*', FPV)],
  'Hypothesis round-trip testing against an exact decoder + small-format enumeration',
  'the rational model in lib/fpmodel.py.')

P('F03', 'Constructing a float rounds the given number once',
  'FPVector constructed from an int, float, Fraction, decimal string, another FPVector '
  'or an object with __float__/__int__ is that number rounded once into the format in '
  'its rounding mode (infinities, NaN and signed zeros kept where the format has '
  'them); float(x) returns exactly the value for formats that fit a double. Other '
  'arguments are refused, never silently converted.',
  ['inputs'], 'all formats, modes, and numbers of every accepted kind, chosen on and '
  'around representable values, midpoints and range ends',
  'tests construct from machine floats in double-like formats.',
  [FPV], [('FPVector.__init__, __float__', FPV)],
  'Hypothesis differential testing against an exact rational model',
  'the rational model in lib/fpmodel.py.')

P('F04', 'Floating-point comparison and conversion to integers follow the values',
  'Comparisons return Bits ordering the exact values (NaN unordered, zeros of both signs '
  'equal), methods and operators alike. An operand that is a number stands for the float '
  'it rounds to; a float of another format (width, mode or compliance) is refused by every '
  "operation, not combined or compared. to_ubv/to_sbv return the exact value rounded to an integer in the given "
  "type's rounding mode, reduced modulo 2^n, as the unsigned/signed vector type asked for.",
  ['inputs'], 'all formats, operand pairs, target widths',
  'tests compare random doubles and convert a few.',
  [FPV], [('fp_eq … fp_geq', FPV), ('to_ubv, to_sbv', FPV)],
  'Hypothesis differential testing against an exact rational model',
  'the rational model in lib/fpmodel.py.')

P('F05', 'Operations on floats of many formats do not disturb one another',
  'In any history that interleaves types of different formats and rounding modes — '
  'constructions, arithmetic, conversions, refused operations, operations inside the '
  "conversion of a number or in another thread, and caller changes of gmpy2's context — each step gives what it would give alone; every result is a value "
  "of its own type's format; gmpy2's context is left as it was; random() returns values "
  'of the type, finite unless infinities are allowed.',
  ['histories'], 'all interleavings of operations over several live formats, with '
  'exceptions in between',
  'tests use one format at a time and never change or inspect the context.',
  [FPV], [('_fp_wrap context handling', FPV), ('random', FPV)],
  'Hypothesis-generated histories against the rational model and a context monitor',
  'the rational model in lib/fpmodel.py.')

P('F06', 'A floating-point type is one format: caching, binding, refusing',
  'Binding a family (or a subclass of it) to the same (exponent, mantissa, mode, '
  'compliance) twice yields one type, different formats different types; a bound type '
  'reports its parameters, size and unbound family, is a subclass of the same format of '
  'each base family and of nothing else, refuses re-binding, rebinds with replaced '
  'parameters, and can be subclassed. Ill-typed formats are refused whatever is cached; '
  'unbound families have no format and no values.',
  ['histories'], 'all histories of binding, subclassing, dropping and collection',
  'tests bind a handful of formats once.',
  [FPA, FPV], [('FPVectorMeta.__getitem__ and its caches', FPA)],
  'Hypothesis-generated histories against a set-of-formats model',
  'garbage collection is forced with gc.collect().')

P('F07', 'Symbolic floats are consistent uninterpreted functions of their format',
  'SMTFPVector programs denote, per format, one uninterpreted function per operation: '
  'two programs are equal terms exactly when they apply the same functions to the same '
  'symbols and constants; the same operation of the same format is shared by all its '
  'types, different formats or operations never are; results have the type and width of '
  'the operation; constants are the bit patterns of the concrete FPVector; operands '
  'of another width or kind are refused; conversions give vectors of the asked width.',
  ['programs'], 'all programs over all operations and formats',
  'tests exercise SMTFPVector through one shared fixed suite of expressions.',
  [SFP], [('uninterpreted function tables and _fp_wrap', SFP)],
  'Hypothesis-generated programs, differential against an interpretation by FPVector',
  "pysmt's substitution and simplifier evaluate terms.")

ADT = 'hwtypes/adt.py'
META = 'hwtypes/adt_meta.py'
AUTIL = 'hwtypes/adt_util.py'
MODS = 'hwtypes/modifiers.py'
UT = 'hwtypes/util.py'

P('A01', 'Tuples and products hold one typed value per field',
  'A Tuple, AnonymousProduct or Product value holds exactly the values it was given, in '
  'field order, whether by position, keyword, from_values or type inference; index '
  '(negative too) and field name are the same place, for reading and assignment, at '
  'any nesting depth. A value of another type, a wrong number of values, an unknown '
  'field, a bad index or slice is refused (TypeError, ValueError, IndexError) and '
  'changes nothing. value_dict lists the fields in order and from_values inverts it; '
  'after any history a value equals, and hashes as, a new one of the same contents.',
  ['histories', 'inputs'], 'all field types, names and nestings, all sequences of '
  'assignments and constructions, accepted and refused',
  'tests use one two-field type with enum fields and one assignment.',
  [ADT, META], [('Tuple, AnonymousProduct, from_values', ADT),
                ('generated __new__/__init__ and properties', META)],
  'Hypothesis model-based testing: generated types and operation sequences',
  'nested Python tuples are the model.')

P('A02', 'Sums hold exactly one alternative; tagged unions exactly one tag',
  'A Sum or TaggedUnion value matches exactly the alternative (or tag, also among tags '
  'of one type) last given by construction, assignment or from_values and yields that '
  'value; asking another alternative for its value raises TypeError. Values of other '
  'types, foreign alternatives, no tag, two tags or an unknown tag are refused and change '
  'nothing. value_dict has that one entry and from_values inverts it exactly, falsy '
  'values included; copies are independent.',
  ['histories', 'inputs'], 'all alternative types and tags, all sequences of '
  'assignments and constructions',
  'tests use one sum of two alternatives and a union with three tags.',
  [ADT, META], [('Sum, Match, TaggedUnion', ADT), ('TaggedUnionMeta._from_fields', META)],
  'Hypothesis model-based testing: generated types and operation sequences',
  'a (tag, value) pair is the model.')

P('A03', 'Enums are closed sets of named members',
  'An Enum type has exactly the members written, in order, each one object with its '
  'name, value and type; members are equal exactly when of one type and value, hash '
  'accordingly and never equal members of other enums; Auto values are all distinct. '
  'E(member) is the member and nothing else can be called into existence; members are '
  'not reachable through members; reserved names are refused; other attributes and '
  'methods stay what they are; equal definitions are one type unless cache=False.',
  ['inputs'], 'all member names (name, value, ... included), values and Auto, extra '
  'attributes',
  'tests define three fixed enums.',
  [ADT, META], [('Enum', ADT), ('EnumMeta', META)],
  'Hypothesis model-based testing over generated enum definitions',
  'the definition itself is the model.')

P('A04', 'Equal type expressions are one type, different ones are different types',
  'Tuple, AnonymousProduct, Product, Sum and TaggedUnion types built from equal '
  'descriptions (fields in order, alternatives and tags unordered, family, name, other '
  'attributes and methods) are the same type while one is alive, by class statement '
  'or from_fields; any difference, or cache=False, gives a different type with exactly '
  'its own fields. A type is below its family and the tuple or sum of the same fields '
  'and unrelated to others; it is of the attribute syntax if it is a Product or '
  'TaggedUnion, of the getitem syntax otherwise; bound types are not bound again nor given other fields by '
  'inheritance; unbound types have no values; reserved names are refused.',
  ['histories'], 'all type descriptions and near misses, all histories of building, '
  'subclassing, dropping and garbage collection',
  'tests compare a handful of pairs of types once.',
  [META], [('_cache_handler (getitem and attribute syntax)', META),
           ('BoundMeta.__new__, _bases_from_idx', META)],
  'Hypothesis-generated histories against a model keyed by normalised descriptions',
  'garbage collection is forced with gc.collect().')

P('A05', 'enumerate() lists every value of a type exactly once',
  'enumerate() of a type built from enums, tuples, products, sums and tagged unions '
  'yields every value of the type exactly once (per tag, for tagged unions), each of '
  'exactly that type; fields that are not ADTs contribute T(0); enumerating again gives '
  'the same. Assigning a field of one value changes no other, and two places of one '
  'value never share an object that can be changed.',
  ['inputs'], 'all nestings of types with up to 400 values',
  'tests enumerate one fixed type of each kind.',
  [META], [('TupleMeta/SumMeta/TaggedUnionMeta/EnumMeta.enumerate', META)],
  'Hypothesis differential testing against itertools over descriptions',
  'itertools.product is the reference.')

P('A06', 'rebind substitutes a type for another, everywhere at once',
  'T.rebind(A, B) is the type T describes with every field of type A (with '
  'rebind_sub_types, of any subclass of A) replaced by B, at any depth unless '
  'rebind_recursive is off, whatever B contains; field names, order, family, name and '
  'caching are kept, and equal results are the same type. T is not changed, and a '
  'product or union without such fields is returned itself.',
  ['inputs'], 'all types, all A (leaves and nested types), all B including ones that '
  'contain A',
  'tests rebind three fixed types.',
  [META], [('_GetitemSyntax.rebind, _AttrSyntax.rebind', META)],
  'Hypothesis differential testing against substitution in descriptions', '')

P('A07', 'rebind_bitvector, rebind_keep_modifiers and rebind_type change only leaves',
  'rebind_bitvector replaces every vector of one family, at any depth, by the vector of '
  'the same size (or unsized) of another; rebind_keep_modifiers replaces every leaf that '
  'is a subclass of A by B; rebind_type replaces vectors and bits by those of a family. '
  'Field names, order, modifiers (where they are asked to be kept), name, family and '
  'caching stay, other leaves are untouched, and all fields are replaced at once.',
  ['inputs'], 'all types with modifiers at any depth, families and leaf types',
  'tests rebind a few fixed products between two families.',
  [AUTIL], [('rebind_bitvector, rebind_keep_modifiers, rebind_type', AUTIL)],
  'Hypothesis differential testing against a map over descriptions', '')

P('A08', 'Visitors reach every node of a type or value exactly once, in order',
  'ADTVisitor visits each node of a type, and ADTInstVisitor each part present in a '
  'value, exactly once, outermost first and in field order (any order among the '
  'alternatives of a Sum), each by the method of its kind; a method that is overridden '
  'decides whether its children are visited; nothing visited is changed.',
  ['inputs'], 'all nestings of types and values, any subset of overridden methods',
  'tests visit one type and one value and compare sets of leaves.',
  [AUTIL], [('_ADTVisitor.visit dispatch, generic_visit', AUTIL)],
  'Hypothesis differential testing against a traversal of descriptions', '')

P('A09', 'Equality of algebraic values is symmetric and agrees with hashing',
  'Among values of tuples, products, sums, tagged unions, their subclasses and the '
  'tuple or sum types below them, == is reflexive and symmetric, != is its negation, '
  'equal values have equal hashes and are one element of a set; values of one type are '
  'equal exactly when their contents (and tag) are, also after these are changed, values of unrelated types never, and '
  'comparing never fails, whatever the alternatives.',
  ['inputs'], 'all pairs of values over families of related and unrelated types',
  'tests compare one anonymous product with one tuple.',
  [ADT], [('__eq__, __ne__, __hash__ of Tuple, Sum, TaggedUnion, Enum', ADT)],
  'Hypothesis metamorphic testing over pools of related types',
  'equality of leaf values is trusted.')

P('A10', 'A class statement separates fields from attributes',
  'In a Product or TaggedUnion class statement the entries that are types, and in an Enum '
  'the ints and Auto(), are the fields or members, in order, nested classes and annotated '
  'entries included. Names written _x_ or __x__, descriptors (methods, properties, class '
  'and static methods, any object with __get__, __set__ or __delete__), bare annotations '
  'and values of other types are attributes that work as in any class, super() included. '
  'Name, module and doc string are those written. A statement without fields makes an '
  'unbound type whose attributes its types inherit. Names reserved for the machinery are '
  'refused.',
  ['inputs'], 'all class statements over field kinds, attribute kinds and names',
  'tests have a few statements with fields only and one with a method.',
  [META], [('_AttrSyntax.__new__, _is_dunder, _is_sunder, _is_descriptor', META),
           ('_from_fields', META)],
  'Hypothesis-generated class statements against the statement itself',
  "the standard library's enum module decides what is sunder or dunder; attributes are hashable.")

P('A11', 'Copies of values are equal and independent',
  'copy.copy and copy.deepcopy of a vector, Bit, float, merged value or algebraic value '
  'give a value of the same type, equal to it (with equal hash and repr), and later '
  'assignments of bits, fields or alternatives to either are not seen in the other: a '
  'deep copy shares nothing, a shallow one shares exactly its fields. The copy of an '
  'enum member is the member, of a type the type. Values of types that a module '
  'provides under their name come back from pickle.',
  ['inputs', 'histories'], 'all values of all types, all histories of copying and assigning',
  'no test copies a value.',
  [ADT, META], [('copying of values: __getnewargs__, __reduce_ex__, absence of shared state', ADT),
              ('generated __new__ of products', META)],
  'Hypothesis model-based histories of copies and assignments',
  "the model is copied by Python's copy module; pysmt terms are not deep-copied.")

P('M01', 'A modifier makes one subtype per type and can be taken off again',
  'Applying a modifier to a type gives one type, the same each time, that is a subclass '
  'of the type, of the modifier and of the modified bases, and of no other modifier; '
  'get_modifier/get_unmodified, unwrap/wrap and get_all_modifiers are exact inverses '
  'in order; a modifier is not applied twice by wrap_modifier; make_modifier gives a '
  'new modifier unless asked for a cached one. Values of a modified type behave as '
  'those of the type and are instances of both.',
  ['inputs', 'histories'], 'all types (vectors, enums, ADTs), all orders of modifiers, '
  'histories with garbage collection',
  'tests apply a few modifiers to Bit and three fixed types.',
  [MODS], [('_ModifierMeta.__call__ and its weak tables', MODS),
           ('wrap_modifier, unwrap_modifier', MODS)],
  'Hypothesis model-based testing over chains of modifiers and histories',
  'garbage collection is forced with gc.collect().')

P('M02', 'Stripping and pushing modifiers keep everything but modifiers',
  'strip_modifiers removes every modifier at every depth of a type and nothing else; '
  'push_modifiers moves the modifiers of inner nodes to the leaves below them, inner '
  'modifiers applied first, and refuses a modifier met twice; field names, order, type '
  'names and families stay, stripping is idempotent and undoes pushing, and the argument '
  'is not changed.',
  ['inputs'], 'all types with modifiers at any depth',
  'tests strip two types, and their push test asserts nothing.',
  [MODS], [('strip_modifiers, push_modifiers', MODS)],
  'Hypothesis differential testing against a map over descriptions', '')

P('M03', 'new() makes a type of its own that is still the type it came from',
  'new(T), for a sized or unsized vector, enum, tuple, sum or product type, is a fresh '
  'subclass of T each time, with the name and module asked for, unrelated to any other '
  'type made by new but its own ancestors. new(T, index) is bound to that index by its '
  'own unbound type, which binds to it again and is below T[index]. Its values are '
  'values of T with T\'s behaviour, keep its type under operations, and are instances '
  'of no other type made by new.',
  ['inputs', 'histories'], 'all kinds of types, indices, names, and histories of new()',
  'tests apply new to four types once.',
  [MODS, META, ABC], [('new', MODS), ('__getitem__ and _from_fields of the metaclasses', META)],
  'Hypothesis model-based testing over histories of types', '')

P('U01', 'Frozen dictionaries and typed properties keep their contracts',
  'FrozenDict and OrderedFrozenDict have the items they were made of, in order, '
  'independent of their source, refuse mutation, equal a mapping of the same items '
  '(order included between ordered ones) and hash consistently with equality. A '
  'TypedProperty is its type on the class and acts as a property on instances that '
  'accepts exactly values of its type; missing accessors raise AttributeError, and '
  'getter/setter/deleter return new properties in any order; documentation that was '
  'given is kept. A Method takes the name '
  'it is given in its class, is that function on the class and bound on instances.',
  ['inputs', 'histories'], 'all item lists, all sets of accessors and access sequences',
  'tests use one class with two properties.',
  [UT], [('FrozenDict, OrderedFrozenDict', UT), ('TypedProperty', UT), ('Method', UT)],
  'Hypothesis model-based testing against dict and a two-slot store', '')
