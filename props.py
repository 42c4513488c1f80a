"""The properties, their statements and how each is decided; gen.py derives
properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from here."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique='', note='', design='', na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, design=design, na=na, observe=observe or []))


BP = 'bit-provenance dataflow over clang IR'

prop('B01', 'Endian swapping reverses the bytes of every element exactly once',
     'Swapping the byte order of an arithmetic value, of an array, or of any vector/matrix/class type built from them reverses the bytes of '
     'each scalar element in place. Element order, one-byte elements and surrounding memory are untouched, so swapping twice is the identity; '
     'swapping is defined for every element width of 1, 2, 4 and 8 bytes and every vector type of the library.',
     ['inputs'], 'all bit patterns of all swappable types', 'the tests swap a few constants of a few widths',
     ['datas/endian.hpp', 'datas/vectors.hpp', 'datas/vectors_simd.hpp'],
     [('FByteswapper', 'datas/endian.hpp'), ('SwapEndian members', 'datas/vectors.hpp')],
     BP, 'Decides every input bit pattern of the instantiated types: each output bit is proved to be a copy of the one required input bit. '
     'Trusts clang\'s front end and the listed type instantiations as representatives of the templates.',
     'A driver instantiates the swappers for all element types and vector/matrix types; the analysis follows every bit from the argument '
     'to the result and requires the byte-mirrored origin per element.')
prop('B02', 'The binary reader delivers exactly the stored bytes, swapped when asked',
     'Reading a value, array, vector, string or container from a stream consumes exactly the bytes of its elements (and of its length prefix) and '
     'delivers them in order. With endian swapping enabled each multi-byte scalar is byte-reversed, one-byte elements are not; with it disabled '
     'bytes are delivered unchanged, and nothing beyond the destination is written. What a container held before is replaced; a string ends at its zero or with the stream.',
     ['inputs'], 'all stream contents and positions, both swap settings', 'the tests read a handful of fixed buffers',
     ['datas/binreader_stream.hpp', 'datas/binreader_ref.hpp', 'datas/binreader.hpp'],
     [('BinReaderRef_e::Read*', 'datas/binreader_ref.hpp'), ('BinStreamReader::ReadBuffer', 'datas/binreader_stream.hpp')],
     BP, 'Decides all contents for the instantiated element types and listed container lengths; std::istream is modelled as a byte sequence '
     'that delivers what is asked (truncated streams are outside the claim but for strings).',
     'Driver functions call each overload; std::istream::read is modelled as delivering symbolic bytes; destination bits must be the stream bits in order.')
prop('B03', 'The binary writer emits what the reader reads back',
     'Writing a value, array, vector, string or container emits exactly the bytes of its elements (and of its length prefix) in order, '
     'byte-reversed per multi-byte scalar when endian swapping is enabled, and never modifies the written object. Reading the emitted bytes with '
     'the same setting restores the value.',
     ['inputs'], 'all values, both swap settings', 'the tests write a handful of constants',
     ['datas/binwritter_stream.hpp', 'datas/binwritter_ref.hpp', 'datas/binwritter.hpp'],
     [('BinWritterRef_e::Write*', 'datas/binwritter_ref.hpp'), ('BinStreamWritter::WriteBuffer', 'datas/binwritter_stream.hpp')],
     BP, 'As B02; the writer output is linked to the reader input and the composition proved to be the identity on bits.',
     'Writer and reader are analysed back to back; emitted bits are compared with object bits and the restored bits with the originals.')
prop('B09', 'File readers and writers use their own file, also after moves',
     'Constructing or opening a BinReader or BinWritter with a file name, as C string or std::string, opens exactly this file in binary mode for reading or writing, also while another file is open, after a failed attempt or after an operation on the stream failed; all '
     'operations, also those through a BinReaderRef or BinWritterRef copied from it, then use this file and IsValid is true. If it cannot be opened FileNotFoundError (FileInvalidAccessError for writers) naming the file is thrown and IsValid is false. '
     'A reader or writer that was moved continues on the file of the one it was moved from, with its endianness, origin and saved position, whatever happens to that one, which can be opened again. They cannot be copied.',
     ['histories', 'configurations'], 'all sequences of constructing, opening, failing, moving, destroying and using', 'the tests open each file once',
     ['datas/binreader.hpp', 'datas/binwritter.hpp', 'datas/internal/bincore_file.hpp', 'datas/internal/bincore_navi.hpp'],
     [('BinReader/BinWritter constructors and Open', 'datas/binreader.hpp'), ('BinStreamFile', 'datas/internal/bincore_file.hpp')],
     'typestate and points-to dataflow over clang IR', 'Sequences of up to seven such steps; the stream class is replaced by declarations with the documented behaviour of std::fstream.',
     'The stream classes are replaced by one of which only declarations exist; every call records on which stream object it is made, the state of that stream follows the standard, and the stream a read or write reaches is compared with the file last opened.')
prop('B04', 'Stream navigation lands where it says, relative to the set origin',
     'Tell, Seek, Skip, relative-origin push/pop, padding and size queries of the binary reader and writer position the stream at exactly the '
     'promised offset: seeks and tells are relative to the last set origin, origin save/restore restores the previous origin, padding moves to the next multiple '
     'of the alignment (and not at all if already aligned), and size queries leave the position unchanged.',
     ['inputs', 'histories'], 'all positions, origins and skip distances', 'the tests navigate a few fixed offsets',
     ['datas/internal/bincore_navi.hpp', 'datas/binreader_stream.hpp', 'datas/binwritter_stream.hpp'],
     [('BinCoreOffset navigation', 'datas/internal/bincore_navi.hpp')],
     'linear-form provenance dataflow over clang IR', 'Positions and arguments are symbols; resulting positions are proved equal as linear forms modulo 2^64. '
     'Padding is decided per residue class and alignment (quick: sampled alignments, thorough: all up to 64).',
     'The stream model carries a symbolic position; each navigation call must move it to the promised linear form.')
prop('B05', 'Variable-length 128-base integers round trip in the fewest bytes',
     'Every 64-bit unsigned and signed value written with the variable-length encoding is read back unchanged, the reader consumes exactly the bytes '
     'the writer produced, and the encoding uses the fewest bytes that can hold the value and never more than 9.',
     ['inputs'], 'all 2^64 values, signed and unsigned', 'the tests try a few dozen values around the size steps',
     ['datas/base_128.hpp'], [('buint128/bint128 Read/Write', 'datas/base_128.hpp')],
     BP, 'Complete for all 2^64 values: partition by sign and highest significant bit, all lower bits unknown.',
     'Per partition class the writer is abstractly run, its bytes are linked to the reader, and each bit of the read value must be the bit of the written one.')
prop('B06', 'Bit field members are read and written alone',
     'Reading a declared member of a bit field returns exactly its declared bit range, zero-extended. Writing a member replaces exactly that range '
     'with the low bits of the argument and leaves every other bit and all surrounding memory unchanged; member masks cover exactly the declared range.',
     ['inputs'], 'all storage values and arguments, all layouts', 'the tests use one or two layouts and constants',
     ['datas/bitfield.hpp'], [('BitFieldType::Get/Set', 'datas/bitfield.hpp'), ('BitMember::GetMask', 'datas/bitfield.hpp')],
     BP, 'Complete in the storage and argument values for a set of layouts spanning all storage widths, single-bit, full-width and partial coverage.',
     'Layouts of every width are instantiated; every result bit is traced to its source.')
prop('B07', 'Byte swapping a bit field mirrors its layout and is undone by its inverse',
     'Byte swapping a bit field for writing places each member at the position it has in the mirrored layout with its value intact, and '
     'swapping back for reading restores the members declared by the layout exactly.',
     ['inputs'], 'all storage values, all layouts', 'the tests use one layout and one constant',
     ['datas/bitfield.hpp', 'datas/internal/bitfield.inl'], [('SwapBitField', 'datas/internal/bitfield.inl')],
     BP, 'Complete in the storage value for the listed layouts.', 'Both directions are analysed on symbolic storage, separately and composed.')
prop('B08', 'Flag sets change only the named flag',
     'Setting, clearing, toggling or testing an enumerator in a flag set affects exactly the bit whose index is the enumerator value and no other, for every index of the storage '
     'type; conversions from and to the integer keep all bits, and combined operators act bitwise.',
     ['inputs'], 'all storage values and flag indices', 'the tests use one enum and few combinations',
     ['datas/flags.hpp'], [('Flags<>', 'datas/flags.hpp')],
     BP, 'Complete in the storage value for every flag index and storage width up to 64.', 'One driver per operation, index and width.')
VN = 'algebraic value-numbering dataflow over clang IR'
prop('V01', 'Scalar vectors compute component by component',
     'Every operator, conversion, comparison and geometric function of the 2, 3 and 4 component vectors acts on each component with the meaning of its '
     'element type: arithmetic, bitwise and shift operators (vector or scalar operand, assigning or not) never mix components or touch their '
     'operands, equality compares all components (floats within FLT_EPSILON), Length, Dot, Cross, Normalize, Convert and Sign follow their formulas.',
     ['inputs'], 'all component values', 'the tests use small constant vectors of one element type',
     ['datas/vectors.hpp'], [('t_Vector2, t_Vector, V4ScalarType', 'datas/vectors.hpp')],
     VN, 'Integer results are exact for all bit patterns; float results are compared as real-number formulas (rounding, NaN and signed zero abstracted).',
     'One driver per operation, vector size and element type; each result component is normalised to a polynomial over the operand components and compared with its definition.')
prop('V02', 'SIMD vectors compute the same per-lane results as the scalar ones',
     'Every operator, conversion, comparison and geometric function of the SIMD float and integer vectors produces in each of the four lanes what the '
     'scalar definition prescribes: no lane is mixed up, dropped or left stale, comparisons hold only if they hold in all four lanes, equality uses the configured epsilon, and '
     'Length, Dot, Cross, Normalize, quaternion conjugate and element reconstruction follow their formulas.',
     ['inputs'], 'all lane values', 'the tests use small constant vectors; lane mixups need specific patterns',
     ['datas/vectors_simd.hpp'], [('V4SimdFltType, V4SimdIntType', 'datas/vectors_simd.hpp')],
     VN, 'As V01 with lane-exact models of the SSE operations the code compiles to.',
     'The IR of every operation is evaluated over symbolic lanes; float lanes are compared as polynomials, integer lanes bit by bit.')
prop('M01', '4x4 transforms follow the matrix and quaternion algebra',
     'Construction, identity and transposition place every entry; multiplication is the matrix product, also of a matrix with itself; building from a unit quaternion gives its '
     'rotation matrix and extracting the quaternion of a rotation restores it up to sign; composing yields the position and the scaled rotation rows, decomposing '
     'yields position, signed row lengths and rotation; RotatePoint applies the 3x3 part; negation inverts the linear part and the translation through it.',
     ['inputs'], 'all affine matrices and quaternions', 'the tests check a dozen rounded constants',
     ['datas/matrix44.hpp', 'datas/matrix44.cpp'], [('esMatrix44', 'datas/matrix44.cpp')],
     VN, 'Complete as real-number formulas: quaternion extraction is decided in each of its four sign regions modulo |q|=1, decomposition per '
     'determinant sign, inversion for rows longer than the degeneracy threshold.',
     'matrix44.cpp is evaluated over symbolic entries; every result entry is compared as a polynomial (with inverse roots) with its definition.')
prop('F01', 'Small floats decode and encode every code exactly',
     'A small float code (any mantissa width up to 10 bits, 5 bit exponent, signed or not) decodes to the float of that value: normals exactly, denormals '
     'as mantissa times the smallest step, with their sign, infinities and NaNs as such. Encoding truncates the mantissa of values in range, keeps the sign (also of zero), turns '
     'values above the range into infinity and keeps NaN; every code survives decoding and re-encoding. The scalar and vector versions agree lane by lane.',
     ['inputs'], 'all codes and all float bit patterns', 'the tests try a few dozen half floats',
     ['datas/float.hpp'], [('esFloat', 'datas/float.hpp')],
     BP + ' with exact real-number forms for the denormal step', 'Per exponent value and sign, complete in the mantissa bits, for the three instantiations the library uses. '
     'Encoding of denormals assumes the default rounding mode.',
     'For each exponent and sign the mantissa bits stay symbolic; every result bit must be the required mantissa, exponent or sign bit, denormals are compared as sums of weighted bits.')
prop('U01', 'Packed formats decode every component from its own bits',
     'For every supported pair of numeric kind and data layout, the registry holds a codec that reads exactly the bytes of one element and returns in each lane the component '
     'at its declared bit range: zero or sign extended (UINT, INT), scaled to its full range (UNORM, NORM; short components of layouts with mixed widths use the '
     'widest component\'s scale, shifted), or as the float it encodes (FLOAT, UFLOAT); lanes the layout lacks are 0. Asking for the wrong vector kind throws. Sampling returns the requested number '
     'of elements at the given stride, each equal to the single-element result. Format descriptors are equal only if both fields are.',
     ['inputs', 'histories'], 'all element contents, all 78 format combinations', 'the tests decode one or two elements per combination',
     ['uni/format.hpp', 'uni/uni_format.cpp', 'uni/internal/format_full.hpp'],
     [('FormatCodec::GetValue/Sample', 'uni/internal/format_full.hpp'), ('registry', 'uni/uni_format.cpp')],
     BP + ', algebraic value numbering, call-site table rule', 'Complete in the element bits; scale factors are compared to 2^-20 relative. Sampling is decided for small counts, packed and with too short strides for every combination, with padding for five. '
     'Two known findings (B of NORM R11G11B10 and NORM R5G6B5), pinned by the existing tests.',
     'uni_format.cpp is compiled, each codec is evaluated on one element after having been called on another (so state kept between calls shows); lanes are compared bit by bit or as weighted '
     'sums of bits; recorded accesses bound what is read; the registry is read from the calls that build it.')
prop('H01', 'Name hashes follow their published definition for every byte',
     'JenHash and JenHashCannon are the one-at-a-time hash with 64 and 32 bit intermediates and JenHash3 the word-wise lookup3 hash, over the unsigned bytes of the whole name '
     'without its terminator, for any length; nothing outside the name is read. Literal, view and raw construction agree, comparisons compare the hash value, and the order is strict.',
     ['inputs'], 'all byte contents, lengths across all block and tail shapes', 'a handful of constants are asserted, all short ASCII',
     ['datas/jenkinshash.hpp', 'datas/jenkinshash3.hpp'], [('JenkinsHash_', 'datas/jenkinshash.hpp'), ('JenkinsHash3_', 'datas/jenkinshash3.hpp')],
     VN, 'Complete in the bytes for lengths 0-21 (one-at-a-time) and 0-49 (lookup3), which cover every tail shape twice.',
     'The computed word and the definition are both normalised to terms (linear forms modulo 2^n, xor, shifts) over the input bytes and must be the same term.')
prop('P01', 'Stored pointers are fixed up once and designate root plus offset',
     'Fixing up a stored pointer turns its stored offset into root plus offset, leaves a null pointer null, reports whether it did, registers the slot '
     'and does nothing for a registered slot until the registry is cleared; Fixed reports exactly the registered slots. Relative 32 bit pointers designate their own address plus the '
     'signed stored distance, assignment restores what was assigned, null included, and access through const and non-const paths agrees.',
     ['inputs', 'histories'], 'all offsets and roots, histories of two slots', 'no test covers pointers',
     ['datas/pointer.hpp'], [('Pointer_t, PointerX86', 'datas/pointer.hpp')],
     'points-to and linear-form provenance dataflow over clang IR', 'Offsets and roots are symbolic; histories are the listed ones over two slots, including repeated fixups and clearing.',
     'Slots are memory objects; the resulting pointer must be the promised base object plus distance, or linear form of root and offset.')
prop('A01', 'Linked storage is used in place and never freed, own storage exactly once',
     'A container linked to external storage uses it in place: elements are the linked ones and writes go through. Disposing, destroying, moving, copying, swapping, relinking or growing '
     'the container never frees the external storage or writes outside of it; a copy has storage of its own; every block the container allocates itself is freed exactly once. Hybrid deleters release each object exactly when '
     'they were constructed as owning.',
     ['histories'], 'all element contents, histories of link, move, copy, swap, grow, dispose, reuse', 'one test follows one history of a char vector',
     ['datas/allocator_hybrid.hpp', 'datas/deleter_hybrid.hpp', 'uni/common.hpp'],
     [('allocator_hybrid', 'datas/allocator_hybrid.hpp'), ('deleter_hybrid', 'datas/deleter_hybrid.hpp')],
     'points-to and footprint dataflow over clang IR', 'Complete in contents for the nineteen listed histories, three element types and libstdc++ vectors.',
     'Each history is evaluated with the external storage and every allocation as separate objects; allocation, release and store events are matched against the rule.')
prop('S01', 'String views search, compare and slice as defined and stay inside the view',
     'For a string view, find, rfind and the find_first/last[_not]_of family return the first (last) index at or after (at or before) the given position that matches, or npos; '
     'comparison and the relational operators order texts lexicographically by unsigned character, shorter prefix first; substr, remove_prefix/suffix and resize select exactly the '
     'requested characters, at() throws at and past the end, substr() and copy() past it, copy writes exactly min(count, size - pos) characters and returns that count; inserting a view into a stream writes exactly its characters and MakeStringView of a literal has all characters but the terminator. Characters with value 0 are characters like any other, and lengths compare by their full width. No operation accesses a character outside the viewed ranges.',
     ['inputs'], 'all texts over the character classes, all positions, needle and view lengths', 'the tests use string views only incidentally',
     ['datas/string_view.hpp', 'datas/internal/string_view.inl'],
     [('basic_string_view searches', 'datas/internal/string_view.inl'), ('basic_string_view::compare', 'datas/internal/string_view.inl'), ('basic_string_view::copy', 'datas/internal/string_view.inl')],
     BP, 'Complete for views of up to 5 (thorough: 7) characters, needles of up to 3 (4) and every start position, over alphabets of up to 8 characters (unknown bits 0, 4 and 7 of each character); '
     'an empty needle of find/rfind is left unspecified.',
     'Lengths and positions are constants, character bits unknown. The returned index is compared with the nested choice the definition gives, by canonical truth table or decision diagram; every load and store is range checked.')
prop('R01', 'Reflection tables describe every declared member',
     'For a reflected class the table has one entry per declared member, in declaration order, with the member\'s own kind, element kind, element size, element count, '
     'offset, name hash and type hash; names, aliases, alias hashes and the two parts of a description are the declared texts, and the class hash and name are those of the class. '
     'Bit field members carry their own position and width. The table of a reflected enum holds every enumerator\'s name with the value the compiler gave it, for enumerators without a value or with a decimal or 0x hexadecimal literal, spaced in any way; '
     'looking a value up finds its name, and no name for other values.',
     ['inputs'], 'all member kinds, declaration forms and enumerators; all looked-up values', 'the tests reflect a few classes and probe some entries',
     ['datas/reflector.hpp', 'datas/refl_array.hpp', 'datas/internal/reflector_type.hpp', 'datas/internal/reflector_class.hpp', 'datas/internal/reflector_class_reg.hpp', 'datas/internal/reflector_enum.hpp', 'datas/internal/reflector_enum_reg.hpp', 'datas/internal/reflector_reg.hpp'],
     [('BuildReflType', 'datas/internal/reflector_type.hpp'), ('REFLECTOR_CREATE', 'datas/reflector.hpp'), ('_EnumWrap', 'datas/internal/reflector_enum.hpp')],
     'constant dataflow over clang IR', 'The tables are constants of the declaration: a rig declares members of every kind in every declaration form as representatives. Offsets below 64 KiB and '
     'elements below 256 bytes (the table format cannot hold more).',
     'The initialisers the declaration macros expand to are evaluated; every field is compared with offsetof/sizeof of the member as the compiler knows it and with hashes computed independently.')
prop('R02', 'Typed setters write exactly the addressed number',
     'SetReflectedValueInt, UInt and Float, by index, name or alias, store the value into exactly the addressed number (or element of an array or vector) of the matching '
     'kind: the low bytes of the integer or the converted float, and no other byte of the object changes. A member of another kind or an unknown member is refused as '
     'InvalidDestination, an element index past the end (any but 0 for a scalar) as OutOfRange, and then nothing changes.',
     ['inputs'], 'all values, all element indices, all member kinds', 'the tests set a few members to constants',
     ['datas/reflector.cpp', 'datas/internal/reflector.inl', 'datas/reflector.hpp'],
     [('Reflector::SetReflectedValueInt/UInt/Float', 'datas/reflector.cpp')],
     BP, 'Complete in values and out-of-range indices for the member kinds of the rig; in-range elements are enumerated (sampled for arrays above 8 elements).',
     'Each setter is evaluated per member with an unknown value and with an unknown index; every store to the object must be inside the addressed element and carry its bits, or be unreachable.')

prop('R03', 'Text setters store the described value into the addressed member only',
     'SetReflectedValue with a text, by index, name or alias, stores what the text describes: a number in decimal or 0x form with optional sign, clamped to the range of the member with result OutOfRange; '
     'a negative text for an unsigned member stores its low bits and returns SignMismatch; a text that is not a number leaves number, enum and flags unchanged with InvalidFormat; a float beyond the finite range is clamped to the '
     'largest, below it to the smallest normal number of its sign. "true"/"false" in any case set a bool; an enumerator name sets an enum (spaces around it ignored); "a | b" sets exactly these flags, NULL none; a flag addressed '
     'by index changes only that flag. Arrays, vectors and arrays of vectors are set element by element; an element in quotes or brackets is kept whole; surplus elements give OutOfRange after the first ones are stored, a missing brace InvalidFormat with nothing stored, an empty text '
     'EmptyInput, a blank element ShortInput. An element index past the end gives OutOfRange, an unknown member, a non-array or an unregistered enum InvalidDestination, and nothing is stored. A bit field member changes '
     'only its own bits. Nothing outside of the addressed member, element or flag is ever written.',
     ['inputs'], 'all numbers in the text and all prior object contents, all element indices, all member kinds', 'the tests set some members to some texts',
     ['datas/reflector.cpp', 'datas/reflector.hpp', 'datas/bitfield.hpp'],
     [('Reflector::SetReflectedValue', 'datas/reflector.cpp'), ('SetNumber/SetEnum/SetEnumFlags', 'datas/reflector.cpp')],
     BP, 'Complete in the parsed number, prior contents and out-of-range indices for the member kinds of the rig; the shape of the text (words, braces, separators, case) is enumerated. '
     'strtod, strtoll and strtoull are taken as specified by C. Values left after an invalid bool or array element, negative text for bit field members and the result code of incomplete arrays are unspecified.',
     'Text shapes are constant memory with number tokens standing for any number; stores to the object are matched bit for bit against the value the text means, everything else must keep its prior bits.')
prop('R04', 'Text getters print exactly the addressed member, element or flag',
     'GetReflectedValue by index or name, with element and vector component index, returns the text of exactly the addressed member: integers in decimal with their sign, float as %.6g, double as %.13g, true/false, the enumerator '
     'name, "a | b" for set flags (by index the single flag as true/false), "{a, b}" for arrays, "[a, b]" for vectors, strings and C strings themselves, bit field members extended from their own bits only. '
     'An unknown member, an index past the end or a non-array gives an empty text and reads nothing outside of the member. GetReflectedPair returns the name (or alias) with that text. Nothing is written to the object.',
     ['inputs'], 'all object contents, all element indices, all member kinds', 'the tests print some members of one object',
     ['datas/reflector.cpp', 'datas/reflector.hpp'],
     [('Reflector::GetReflectedValue', 'datas/reflector.cpp'), ('Reflector::GetReflectedPair', 'datas/reflector.cpp')],
     BP, 'Complete in contents and out-of-range indices for the member kinds of the rig; in-range elements are enumerated. snprintf and std::to_string are taken as specified.',
     'Printing functions are modelled as tokens that carry their argument bits; the returned string must consist of the promised characters and tokens of exactly the addressed bits, and every load is range checked.')
prop('R05', 'Sub class lookup yields exactly the nested object',
     'GetReflectedSubClass by index, name or alias yields the class and exactly the address of the nested object (class or bit field), or of the array element; for members of other kinds, unknown members, unregistered classes and '
     'every element index past the end (any but 0 for a single member) it yields nothing. Values set through nested instances, at any depth, land in exactly the nested member. IsArray and IsReflectedSubClass tell the kind of '
     'the member, GetNumReflectedValues, UseNames and GetClassName describe the class. Nothing is written to the object by looking up.',
     ['inputs'], 'all member kinds, names and element indices, object contents', 'the tests look up a few sub classes',
     ['datas/reflector.cpp', 'datas/internal/reflector.inl'],
     [('Reflector::GetReflectedSubClass', 'datas/reflector.cpp'), ('Reflector::IsArray', 'datas/internal/reflector.inl')],
     'points-to and bit-provenance dataflow over clang IR', 'Complete in object contents for the member kinds of the rig; indices are enumerated inside and sampled past the end.',
     'Each lookup is evaluated on an object with unknown contents; the resulting pointer must be the object plus the offset the compiler gives the member, the class the table of its type.')
prop('R06', 'Binary stored objects are restored exactly, member by member name',
     'An object saved in binary form and loaded again has every member of a storable kind (bool, numbers, enums, flags, bit fields, vectors, strings, nested classes and arrays of these) restored exactly; loading consumes exactly the '
     'bytes written, also with swapped endianness, and stores to nothing but the members. Members are matched by name: a stored member the class does not have is skipped and the order does not matter. A stream of another class is refused and not '
     'consumed, one with a different member count refused and skipped, storing nothing. Saving or loading an object with a member that cannot be stored reports an error.',
     ['inputs'], 'all member values and strings, all stream layouts of the listed alterations', 'the tests save and load one object',
     ['datas/reflector_io.cpp', 'datas/reflector_io.hpp', 'datas/base_128.hpp', 'datas/internal/bincore_navi.hpp'],
     [('ReflectorBinUtil::Save', 'datas/reflector_io.cpp'), ('ReflectorBinUtil::Load', 'datas/reflector_io.cpp')],
     BP, 'Integers are partitioned by sign and highest significant bit with lower bits unknown (quick: all for up to 32 bits and 20 of 64 for 64 bit numbers; thorough: all), other values are complete; string lengths up to 300 are sampled.',
     'Save is evaluated into a model of the stream as a typed byte sequence and Load out of it; every restored bit must be the saved one and no other byte of the object may be stored to.')
prop('R07', 'Stored reflection tables are restored exactly',
     'Class tables and enums added to a ReflectorIO, saved and loaded again, are the same: in number and order, every class with its hash, name, member entries, member names, aliases, alias hashes and both parts of the descriptions, '
     'every enum with its hash, name, enumerator names and values; members are found through a loaded table by name and alias as through the original. A file of another kind or a newer version is refused and adds nothing.',
     ['inputs'], 'all table shapes (with and without names, aliases, descriptions) in the listed orders', 'the test stores one fixed set and does not compare alias hashes of the result by lookup',
     ['datas/reflector_io.cpp', 'datas/reflector_io.hpp'],
     [('ReflectorIO::Save', 'datas/reflector_io.cpp'), ('ReflectorIO::Load', 'datas/reflector_io.cpp')],
     'constant and points-to dataflow over clang IR', 'Tables are constants of the declarations: eleven classes and six enums representing every declaration form, in nine sets and orders. 64 bit pointers, native byte order.',
     'Save is evaluated into a typed model of the file, Load out of it; the loaded tables are read back through their pointers and compared entry by entry with the tables of the declarations.')
prop('R08', 'Registered classes and enums are found by their names in any order',
     'After any history of registrations - RegisterReflectedTypes of one or several types, REFLECTOR_REGISTER, in any order and repeatedly - the reflected sub class of a member is the table of exactly its class together with the address of the member, and '
     'the enumerators of every registered enum are stored and printed by exactly their names and values; a class that was not registered has no sub class, and no text is stored into an enum that was not registered or that does not have that enumerator.',
     ['inputs', 'histories'], 'all histories of the listed kinds over seven classes and five enums', 'the tests register each type once, in one order, from static initialisers',
     ['datas/internal/reflector_reg.hpp', 'datas/internal/reflector_class_reg.hpp', 'datas/internal/reflector_enum_reg.hpp', 'datas/jenkinshash.hpp', 'datas/reflector.cpp'],
     [('RegisterReflectedType', 'datas/internal/reflector_reg.hpp'), ('GetReflectedEnum', 'datas/internal/reflector_enum_reg.hpp'), ('Reflector::GetReflectedSubClass', 'datas/reflector.cpp'), ('JenHash', 'datas/jenkinshash.hpp')],
     'points-to and constant dataflow over clang IR', 'Seven classes (one a template) and five enums, histories from none to twelve calls; the thorough tier adds all pairs and all orders of four out of six.',
     'The registering functions are evaluated one after another over a model of the storages; then every member of a class that holds all of the types is looked up by the hash of its name.')
prop('E01', 'Block encryption follows its published modes and decoding undoes it',
     'For every key, initial vector, mode (ECB, CBC, PCBC, CFB, OFB) and buffer, Decode after Encode restores every byte. Whole blocks are chained as the mode is published, in both directions, a tail '
     'shorter than a block is left unchanged, and nothing outside of the buffer is read or written. BlowfishEncoder computes the published Blowfish network with the published key schedule over the digits of pi, '
     'BlowfishEncoder2 the same with the bytes of each word reversed. XOREncoder combines byte i with byte i modulo the key length, and twice is the identity. A Blowfish encoder starts disabled in ECB mode and is valid exactly when enabled.',
     ['inputs'], 'all buffers, vectors, keys and modes', 'the tests encrypt nothing; a vector test would see one key and one mode',
     ['datas/encrypt/blowfish.cpp', 'datas/encrypt/blowfish.h', 'datas/encrypt/blowfish2.h', 'datas/encrypt/encryptor.hpp', 'datas/encrypt/xorenc.hpp'],
     [('IBlockEncryptor', 'datas/encrypt/encryptor.hpp'), ('BlowfishEncoder', 'datas/encrypt/blowfish.cpp'), ('XOREncoder', 'datas/encrypt/xorenc.hpp')],
     BP, 'Complete in contents and vectors for buffers of up to five blocks with every tail length. The chaining is decided with an uninterpreted block function; the network per round. The key is not empty.',
     'The modes are evaluated with a block cipher whose output is an opaque function of its input block; every output bit must be the published combination. The network is compared round by round with the definition.')
prop('S02', 'Basic utilities compute what their names define',
     'SkipStartWhitespace, SkipEndWhitespace and TrimWhitespace remove exactly the blanks and tabs (and line breaks if asked) at the ends of a view and read nothing outside of it; CompileFourCC packs up to four characters, first '
     'lowest; GetPadding is the least number that completes a value to a power of two alignment; IsPow2 tells powers of two; atohLUT gives the value of every hexadecimal digit; GetFraction, IsEnd and TypeFromSize are as defined; IsHelp is true for exactly -h, -?, /? and --help; LittleEndian tells the byte order of the machine.',
     ['inputs'], 'all texts, values, alignments and digits', 'the tests use some of these with constants',
     ['datas/supercore.hpp', 'datas/tchar.hpp', 'datas/internal/sc_architecture.hpp'],
     [('SkipStartWhitespace/SkipEndWhitespace/TrimWhitespace', 'datas/supercore.hpp'), ('CompileFourCC', 'datas/supercore.hpp'), ('GetPadding', 'datas/supercore.hpp')],
     BP, 'Complete for views of up to six characters and for all 64 bit values; alignments are powers of two, IsPow2 is stated for positive numbers, GetFraction for 1 to 63 bits.',
     'Lengths are constants, contents and numbers unknown bits; results are compared bit for bit with the definition.')
prop('N01', 'File paths are split into folder, name and extension exactly',
     'For any path, with backslashes taken as slashes: the folder is everything up to and including the last slash, the extension everything from the last dot behind it (a dot in a folder name does not count, nor one that is the '
     'first character of the path), the file name what is between; GetFilenameExt and GetFullPathNoExt join the neighbouring parts and GetFullPath is the whole path. Loading again replaces everything; a default constructed or '
     'empty path has only empty parts. Explode yields the components between slashes in order. CatchBranch resolves a path against the folder of another. Narrow and wide characters behave alike.',
     ['inputs'], 'all paths', 'the tests split a few fixed paths',
     ['datas/fileinfo.hpp'],
     [('FileInfo::Load', 'datas/fileinfo.hpp'), ('FileInfo::Explode', 'datas/fileinfo.hpp'), ('FileInfo::CatchBranch', 'datas/fileinfo.hpp')],
     'points-to and bit-provenance dataflow over clang IR', 'Every placement of slash, backslash, dot and other characters in paths of up to five characters and a list of longer ones; all other characters stay unknown. CatchBranch for a list of path pairs.',
     'Each placement is a constant skeleton with unknown other characters; the parts must be exactly the promised ranges of the path object.')
prop('N02', 'Directory scans list exactly the matching files; folders are made top down',
     'DirectoryScanner::Scan lists every file below the folder, in any depth, whose name ends with one of the added filters (all files without filters), with its path below the scanned folder, and nothing else; every directory it opens is closed '
     'once, a missing folder adds nothing, and results accumulate until Clear. FileType tells directories, regular files, other kinds and missing paths apart. mkdirs creates every folder on the way to the given files, '
     'parents before children, and nothing else.',
     ['inputs', 'configurations'], 'all directory trees, filters and file kinds', 'the tests scan no directories',
     ['datas/directory_scanner.cpp', 'datas/directory_scanner.hpp', 'datas/stat.cpp', 'datas/stat.hpp'],
     [('DirectoryScanner::Scan', 'datas/directory_scanner.cpp'), ('FileType', 'datas/stat.cpp'), ('mkdirs', 'datas/stat.hpp')],
     'typestate and points-to dataflow over clang IR', 'The directory functions are modelled by a fixed tree with nested, empty, hidden, unreadable and special entries; all 16 file kinds; file lists with shared and nested parents.',
     'Calls of opendir, readdir, closedir, stat and mkdir are matched against the model and the resulting lists and call orders against the definition.')
prop('K01', 'Block compressed textures decode to the published pixels',
     'DecodeBC1Block, BC1BlockA, BC2, BC3, BC4, BC5 and BC5GA decode a block to exactly its 16 pixels at the block position, in the byte order of the image, and change no other byte; they read nothing but the block. Every pixel is the '
     'palette entry its own index bits select: the two end colours or values, their thirds (sevenths, fifths) or, by the order of the ends, their mean, black and transparent. BC1 with alpha sets alpha to 0 for '
     'transparent pixels and 255 for all others, BC2 has 4 bit alpha. DecodeRGB565Block scales components to 0..1. ComputeBC5Blue fills in the third component of a unit vector. The SIMD decoder agrees with the published pixels within 9.',
     ['inputs'], 'all blocks and block positions', 'no test decodes a texture',
     ['formats/BlockDecoder.inl', 'formats/BlockDecoder.h', 'formats/BlockDecoderSimd.hpp'],
     [('DecodeBC1Block .. DecodeBC5BlockGA', 'formats/BlockDecoder.inl'), ('ComputeBC5Blue', 'formats/BlockDecoder.h'), ('_SDecodeBC1Block', 'formats/BlockDecoderSimd.hpp')],
     'bit-provenance dataflow over clang IR with tabulated transfer functions',
     'Palette entries within one of the exact value, exactly at 0 and 255 (SIMD: within 9; blue: within 2). All ends of a channel are tabulated in every order of the end colours; 8 bit ends all (thorough) or 16 x 256 '
     '(quick, beyond one position). The colour of transparent pixels is free.',
     'Each output byte is extracted as a term over the block bits; it may depend on the ends and its own index only, and its table over all of them must be the published palette.')
prop('K02', 'Swizzled texture addresses interleave the coordinates without gaps',
     'For textures of power of two sizes, MortonAddr(x, y) puts the bits of x and y alternately, x first, and the remaining bits of the longer side above them. Addresses of different coordinates are '
     'different and fill 0 .. width * height - 1. The settings keep their sizes, and nothing outside of them is accessed.',
     ['inputs'], 'all sizes and coordinates', 'no test computes an address',
     ['formats/addr_ps3.hpp'], [('MortonSettings', 'formats/addr_ps3.hpp'), ('MortonAddr', 'formats/addr_ps3.hpp')],
     BP, 'Complete: all sizes from 1 to 2^14 in both directions and all coordinates.',
     'Sizes are constants, coordinates unknown bits; every address bit must be exactly the coordinate bit of the interleaving.')
prop('D01', 'DDS headers keep the published layout, formats, conversions and mip sizes',
     'The DDS header fields lie at their published offsets (148 bytes, 128 without the DX10 part); DXGI formats and pixel formats have their published values. A new header is a plain 2D texture. NumMipmaps sets count, '
     'flag and caps together. FromLegacy turns every known legacy format into its DXGI format and the DX10 pixel format; ToLegacy turns it back (forced: also related formats); both report failure and change nothing for '
     'formats without equivalent, and change no unrelated field. ComputeBPP gives the bits per pixel, 0 for unknown formats, without reading outside of its table, and keeps a known value. ComputeBufferSize gives the '
     'size and offset of every existing mip level and their total: sides halve down to 1, block compressed sides round up to 4; it never writes outside of its tables.',
     ['inputs'], 'all headers, formats, sizes and mip counts', 'no test creates a DDS header',
     ['formats/DDS.hpp'],
     [('DDS::FromLegacy', 'formats/DDS.hpp'), ('DDS::ToLegacy', 'formats/DDS.hpp'), ('DDS::ComputeBPP', 'formats/DDS.hpp'), ('DDS::ComputeBufferSize', 'formats/DDS.hpp'), ('DDS::NumMipmaps', 'formats/DDS.hpp')],
     'bit-provenance dataflow over clang IR with tabulated transfer functions',
     'All formats (constants), all other header bits unknown. Mip sizes are tabulated for 22 x 22 sides from 1 to 16384 and selected mip counts, for totals below 2^32. Sizes of packed and planar video formats and the channel '
     'order of 8 bit RGBA formats are not stated.',
     'Functions run on an unknown header with the fields under test set; every one of the 148 bytes is compared with the definition.')
prop('D02', 'Sound file headers keep their published layouts and defaults',
     'RIFF WAVE chunks, sampler loops, FWSE, MSF, VAG and XVAG headers have their published field offsets, identifiers and enumerations. New RIFF, fmt and data chunks carry the right identifier and size; a new fmt chunk the '
     'bits per sample of its format. CalcData sets byte rate and block size from channels, rate and bits. Next of a chunk is the address behind its content, GetData and GetSampleLoops those behind the fixed part, and '
     'IsValidWaveChunk accepts exactly fmt, data, fact and smpl.',
     ['inputs'], 'all headers', 'no test uses a sound header',
     ['formats/WAVE.hpp', 'formats/FWSE.hpp', 'formats/MSF.hpp', 'formats/VAG.hpp', 'formats/XVAG.hpp'],
     [('WAVE_fmt', 'formats/WAVE.hpp'), ('WAVEGenericHeader::Next', 'formats/WAVE.hpp'), ('IsValidWaveChunk', 'formats/WAVE.hpp')],
     'bit-provenance dataflow over clang IR with tabulated transfer functions', 'CalcData for selected channel and bit counts with unknown rates. Chunks with odd sizes (padded) are not considered.',
     'Constructors and functions run on unknown memory and arguments; all bytes are compared with the definition.')
prop('D03', 'ZIP headers are read from and written to their published places',
     'Read of every ZIP header (local file, central file, central directory, ZIP64 directory and locator, signature, extra data) takes each field from exactly its published bytes of the stream and advances by exactly the '
     'published size; Write emits exactly the same bytes. Identifiers, flags and compression methods have their published values.',
     ['inputs'], 'all headers', 'no test reads or writes a ZIP header',
     ['formats/ZIP.hpp', 'formats/ZIP_istream.inl', 'formats/ZIP_ostream.inl'],
     [('ZIPLocalFile::Read', 'formats/ZIP_istream.inl'), ('ZIPFile::Write', 'formats/ZIP_ostream.inl')],
     BP, 'Complete: all headers and values; little endian machines, readers without swapping.',
     'Streams of unknown bytes are read into the header, unknown headers written to a recording stream; each field must consist of exactly the bits at its place.')
prop('T01', 'RunThreadedQueue runs every task exactly once and finishes them before returning',
     'RunThreadedQueue(n, fn) calls fn once with every number 0..n-1 and no other, each on its own asynchronous task; at any time no more tasks run than the larger of one and the number of processors; a started task is waited for before its '
     'handle is dropped, and the call returns only after all of them finished, in whatever order they finish, also for n = 0, fewer tasks than processors, and an unknown (zero) number of processors.',
     ['schedules', 'inputs'], 'all numbers of tasks and processors and all orders in which tasks finish', 'no test counts tasks or changes the number of processors',
     ['datas/multi_thread.hpp'], [('RunThreadedQueue', 'datas/multi_thread.hpp')],
     'typestate and constant dataflow over clang IR',
     'Bounded: 0 to 4 processors (thorough also 8 and 64), up to 300 or 1000 tasks (thorough 70000), scripts of up to 4 (thorough 7) answers of the readiness polls. std::async and std::future are opaque operations.',
     'The function template is instantiated with opaque tasks and futures; every start, poll, wait and release is tracked per task.')
prop('T02', 'The printer delivers every message whole and once, and shares data only locked',
     'Every message of printline, printwarning, printerror and of a direct FlushAll reaches every registered function exactly once, in the order of registration, as terminated text with its prefix (and thread id when enabled), whatever was '
     'printed or failed before and however long it is; a function registered twice counts once, and only functions with colors get color codes, which are reset. Messages are collected per thread. The list of functions and the settings are '
     'used only under one common lock, which is held throughout a message and released on every path, also when a function throws.',
     ['schedules', 'histories', 'inputs'], 'all threads, histories of messages and registrations', 'no test looks at the output or at data races',
     ['datas/master_printer.cpp', 'datas/master_printer.hpp', 'datas/internal/master_printer_ix.inl'],
     [('MasterPrinterThread::FlushAll', 'datas/master_printer.cpp'), ('MasterPrinterThread::AddPrinterFunction', 'datas/master_printer.cpp'), ('SetConsoleTextColor', 'datas/internal/master_printer_ix.inl')],
     'lockset, typestate and constant dataflow over clang IR',
     'A list of histories with up to 5 functions and texts up to 4200 (thorough 66000) characters; the Windows console code is not analysed; the order of construction and destruction of globals is not considered.',
     'Public functions run on opaque printer functions; at each access of shared data the held locks are intersected; the texts are compared with the messages.')
prop('E02', 'Exceptions name what failed and can be caught as std::exception',
     'The message of every exception of the library contains exactly the given file name, magic or version: names of any length that need not be terminated, magics of every integer type as text if they are alphanumeric and as hexadecimal bytes '
     'otherwise, up to their first zero byte and never beyond their size. Nothing outside the magic or name is read. All of them, including ModifyError, derive publicly from std::runtime_error.',
     ['inputs'], 'all names, magics and versions', 'no test looks at a message',
     ['datas/except.hpp', 'uni/internal/exception.hpp'], [('InvalidHeaderError::DecompileFourCC', 'datas/except.hpp'), ('ModifyError', 'uni/internal/exception.hpp')],
     'bit-provenance, constant and bounds dataflow over clang IR',
     'Names have unknown characters and up to 300 of them; magics and versions are lists of constants (thorough: every byte value).',
     'Constructors run up to the text they hand to std::runtime_error; loads are checked against object bounds, character classification against its domain.')
prop('S03', 'UTF-8, UTF-16 and UTF-32 conversions convert all characters of a text',
     'ToUTF8 gives the UTF-8 form of exactly the characters of a pointer (up to its zero) or string (including zeros) of 2 byte (UTF-16) or 4 byte (UTF-32) characters, ToUTF1632 the text in the encoding of wchar_t, also beyond the basic plane '
     'and for empty texts; std::to_string and std::to_wstring of tchar.hpp agree with them or return the same text. UPrintf shows its text unchanged, whatever percent signs it has.',
     ['inputs', 'configurations'], 'all texts, with and without UNICODE', 'no test converts anything',
     ['datas/unicode.hpp', 'datas/tchar.hpp'], [('ToUTF8', 'datas/unicode.hpp'), ('ToUTF1632', 'datas/unicode.hpp'), ('UPrintf', 'datas/tchar.hpp')],
     'points-to, taint and bit-provenance dataflow over clang IR',
     'The standard converters are opaque and trusted; texts of unknown characters of up to 33 characters and constant texts of all planes; wchar_t has 4 bytes here.',
     'The range and kind of conversion that reaches the converter is compared with the text; the text must not reach a format argument.')
prop('U02', 'Uni lists, resampling and default implementations keep their contracts',
     'VectorList, PolyVectorList and every class derived from List or Vector deliver items 0..Size()-1 in order by iteration, index and At, through the derived class and through its base, as references to the stored objects that never delete them; '
     'items out of range throw out_of_range for the storages. Resample changes every component to x + min, x * min or max + x * min as its unpack type says and nothing for None. Default GetTM and GetValue throw logic_error if '
     'the type says they had to be overridden and runtime_error otherwise, setting a frame rate throws ModifyError. A new RTSValue is the identity; comparison covers all of its parts.',
     ['inputs', 'programs'], 'all lists, items and descriptors', 'tests do not use the list classes or Resample',
     ['uni/list_vector.hpp', 'uni/list.hpp', 'uni/virtual_iterator.hpp', 'uni/internal/model.inl', 'uni/internal/skeleton.inl', 'uni/internal/motion.inl', 'uni/rts.hpp'],
     [('VectorList', 'uni/list_vector.hpp'), ('VirtualIterator', 'uni/virtual_iterator.hpp'), ('PrimitiveDescriptor::Resample', 'uni/internal/model.inl')],
     'points-to, typestate and value-numbering dataflow over clang IR',
     'Lists of up to 5 (thorough 33) unknown items; float results are compared as polynomials, so rounding is not considered.',
     'Mock classes derived from the interfaces are analysed with unknown contents; deliveries, deletions and thrown types are recorded.')
prop('Z01', 'A ZIP archive as a file system lists every stored file with exactly its bytes',
     'ZIPVFS lists every nonempty file of an archive of stored files under its name, and nothing else, whatever extra fields, comments, ZIP64 records, signatures and folders surround it. Get delivers a reader that starts at the first '
     'byte of the file and has exactly its size; readers are independent of each other and survive moves with their endianness; a missing name throws out_of_range. Archives with encrypted, compressed or nameless files or unknown blocks are rejected by '
     'runtime_error. Get uses the shared stream only while it holds the lock of the archive, which it releases.',
     ['inputs', 'schedules'], 'all archives and all concurrent calls of Get', 'no test opens an archive',
     ['datas/zip_vfs.hpp', 'formats/ZIP_istream.inl'],
     [('ZIPVFS::ReadEntry', 'datas/zip_vfs.hpp'), ('ZIPVFS::Get', 'datas/zip_vfs.hpp'), ('ZIPVFSFile', 'datas/zip_vfs.hpp')],
     'points-to, typestate and bit-provenance dataflow over clang IR',
     'A list of archive skeletons (names and sizes constant, up to 4 GiB; all other bytes unknown). Empty files need not be listed. Archives with data descriptors or ZIP64 sizes of single files are not considered.',
     'The constructor and Get run on an archive stream with unknown contents; map, bytes, positions and locked regions are compared with the archive.')
prop('C01', 'Every public header can be used alone, twice, with all others and linked',
     'Each header of datas, formats and uni that is meant for direct use compiles as the only header of a source, can be included twice, and all of them can be included together in any of two opposite orders, with the compilers '
     'of the project in C++14 and C++17, with and without RTTI, for narrow and wide characters. Headers leave the packing of structures alone and define nothing that two sources may not both define; no two library '
     'sources define the same name, and every accessible non-template function that a header declares is defined in a header or in a library source.',
     ['configurations'], 'all headers, compilers, language modes and character types', 'the build includes each header in a few sources in one mode; most of the functions are never linked by a test',
     ['uni/model.hpp', 'uni/list.hpp', 'uni/list_vector.hpp', 'uni/rts.hpp', 'uni/skeleton.hpp', 'uni/motion.hpp', 'uni/format.hpp', 'formats/addr_ps3.hpp', 'formats/BlockDecoder.h', 'formats/BlockDecoderSimd.hpp', 'formats/ZIP.hpp', 'formats/DDS.hpp', 'datas/supercore.hpp', 'datas/tchar.hpp'],
     [('include guards and includes', 'uni/model.hpp'), ('TCHAR configuration', 'datas/tchar.hpp')],
     'compile witnesses and symbol tables', 'Headers for Windows and 3ds Max need platform headers that are not there; those for Python are compiled with declarations of Python 2.7; the functions of class templates are covered only where other checks use them.',
     'Every combination is type-checked by gcc 9 and clang 18 from a source generated on the spot; the defined symbols are read from the compiled units, the declared functions through libclang.')
prop('C02', 'Types keep their ownership, conversions, layouts and constant use',
     'Objects of uni interfaces and encryptors can be deleted through their bases; uni interfaces derive from uni::Base and are abstract, what they return is const, and an Element owns its object alone, can be moved, also to an Element of const or of its '
     'base, and is not made implicitly of a pointer. Readers, writers and files of archives cannot be copied; references to readers and writers can, and are not made of the wrong kind of stream. Flags become numbers and Jenkins hashes are made of numbers '
     'only when written out; the two Jenkins hashes do not mix; string views are made of C strings and std::string of the same character type and do not allow to change the text; const stored pointers give pointers to const. Flags, bit fields, hashes, '
     'stored pointers, vectors, SIMD vectors, matrices, format descriptors and fixed size integers keep size, alignment and (except 32 bit pointers) can be copied as bytes; vector names denote the vectors of their component type; REFType numbers are stored '
     'and stay. Flags, bit fields, hashes, byte swapping, CompileFourCC, GetPadding and DDS formats work in constant expressions.',
     ['configurations', 'programs'], 'all listed types, with both compilers', 'tests use the types correctly, what must not compile or not change is never tried',
     ['uni/common.hpp', 'uni/model.hpp', 'uni/motion.hpp', 'uni/skeleton.hpp', 'uni/list.hpp', 'datas/flags.hpp', 'datas/bitfield.hpp', 'datas/jenkinshash.hpp', 'datas/jenkinshash3.hpp', 'datas/string_view.hpp', 'datas/pointer.hpp', 'datas/vectors_fwd.hpp', 'datas/vectors.hpp', 'datas/vectors_simd.hpp', 'datas/encrypt/encryptor.hpp', 'datas/internal/sc_type.hpp', 'datas/internal/sc_architecture.hpp', 'datas/reflector_fwd.hpp', 'datas/zip_vfs.hpp'],
     [('virtual destructors and Element', 'uni/common.hpp'), ('explicit conversions', 'datas/flags.hpp')],
     'type-level witnesses (static assertions)', 'Facts about types only; what the operations compute is the subject of the other properties.',
     'About 750 static assertions over type traits, sizes, overload resolution and evaluated constant expressions are compiled against the current headers by gcc 9 and clang 18 in C++14 and C++17; negative facts are decided by overload resolution in unevaluated operands. A rejected line is the violation.')
prop('G01', 'Settings help and log name every setting of every class',
     'GetHelp lists every reflected setting in order, one line each, with its description and, below it and indented by one more tab, the settings of nested classes and items of arrays of classes and the enumerators of enums, whatever names and '
     'descriptions the classes were reflected with; it does not depend on the values. CreateLog opens one file named after the given name and the time, writes the alias or name and the value of every setting in order and then '
     'receives all messages of the printer without colors. It leaves the settings alone.',
     ['configurations', 'inputs'], 'all settings classes and values', 'no test uses settings',
     ['datas/settings_manager.hpp', 'datas/internal/reflector.inl'], [('SettingsManager::GetHelp', 'datas/settings_manager.hpp'), ('SettingsManager::CreateLog', 'datas/settings_manager.hpp')],
     'constant and provenance dataflow over clang IR',
     'A list of classes that has every kind of member and of reflection; values are unknown except for booleans and enums. The clock, strftime and the file are opaque.',
     'Both functions run on constant reflection tables and a modelled text stream; the text is compared with the declaration.')
prop('X01', 'XML documents give every member the text that was saved for it',
     'Whatever Save, SaveV2 or SaveV2a put into a document, Load or LoadV2 sets in the same member of the same nested object, item, vector component or set of flags, with the same text, and every reflected member is restored, for classes with and '
     'without names, nested, arrays, bit fields, flags in any state and strings with any characters. With Flags_StringAsAttribute strings become attributes, also those of nested classes, else elements; a flag is on for the words pugixml takes for true. Elements of a class are found by its name or hash. Documents with unknown names, indices, axes, item names or unregistered '
     'classes change nothing else than what they name and cause no access outside of the object and texts.',
     ['inputs', 'configurations'], 'all values of all reflected classes; foreign documents', 'the tests save and load one object of one class',
     ['datas/reflector_xml.cpp', 'datas/reflector_xml.hpp'],
     [('ReflectorXMLUtil::SaveV2a', 'datas/reflector_xml.cpp'), ('ReflectorXMLUtil::LoadV2', 'datas/reflector_xml.cpp'), ('ReflectorXMLUtil::Load', 'datas/reflector_xml.cpp')],
     'provenance, points-to and constant dataflow over clang IR',
     'A list of classes with every kind of member and a list of foreign documents; pugixml is modelled as a tree that keeps names and texts; the text of values is that of R03 and R04.',
     'Save runs on a class whose values have opaque texts, Load on the resulting tree; the texts that reach the setters are compared with those the getters returned. Attempts to parse a string as markup are violations.')
prop('X02', 'XML files: flags mean what pugixml means and no failure goes unnoticed',
     'Every XMLParseFlag, XMLFormatFlag and XMLEncoding has the value of its pugixml counterpart, as have the default flags; every status of pugixml has its name. XMLFromFile loads exactly the named file with the given flags and encoding and '
     'returns the document, or throws: FileNotFoundError for missing files, InvalidHeaderError for documents without elements, a runtime_error that names file, status and offset for every other status. XMLToFile saves '
     'that document to that file with the given indentation, flags and encoding and throws if this fails. XMLCollectChildren returns all children, or all with the given name, in order. XML errors name the element and what it misses.',
     ['inputs', 'fault_sequences'], 'all statuses, flags and encodings; trees of a list', 'there are no tests of pugiex.hpp',
     ['datas/pugiex.hpp'],
     [('XMLFromFile', 'datas/pugiex.hpp'), ('XMLToFile', 'datas/pugiex.hpp'), ('XMLCollectChildren', 'datas/pugiex.hpp')],
     'constant and provenance dataflow over clang IR',
     'pugixml itself is opaque: loading and saving report any status; children are collected from trees of a list.',
     'Every constant is compared with that of pugixml.hpp; XMLFromFile and XMLToFile run once per status, with symbolic flags and encodings whose bits must reach pugixml unchanged.')
prop('Y01', 'Python sees the values of uni objects, and references are owned and freed once',
     'In Python, motions, tracks, skeletons, bones, lists, enumerations, vectors and matrices have the lengths, items, names, numbers and components of their C++ counterparts, in order. Each result is a new reference with no error set; an object '
     'is freed when its last reference is released and then deletes its C++ object if and only if it owns that; nothing else keeps, loses or frees a reference. Items out of range and arguments of wrong types are Python errors: '
     'null with an exception set, never a C++ exception, and change nothing. InitType adds every type once by its name.',
     ['inputs', 'histories'], 'all values of objects; lists and times of some lengths; iterated once and repeatedly', 'the Python module of the tests is not built here, and its script reads some constants',
     ['uni/python/pymotion.inl', 'uni/python/pyskeleton.inl', 'uni/python/pylist.hpp', 'uni/python/pyenum.hpp', 'datas/pythonex.hpp', 'datas/python/reflected_enum.hpp', 'datas/python/vectors.hpp', 'datas/python/matrix44.hpp'],
     [('MotionTrack::GetValues', 'uni/python/pymotion.inl'), ('List', 'uni/python/pylist.hpp'), ('Bone', 'uni/python/pyskeleton.inl'), ('ReflectedEnumPy', 'datas/python/reflected_enum.hpp')],
     'provenance and ownership dataflow over clang IR',
     'Python 2.7, which is not installed, is declared by lib/py2 and modelled by lib/pymodel.inl (objects, reference counts, types, numbers, strings, tuples, lists, errors). Lists of 0, 1 and 3 items. Unknown attributes of enumerations are only required to give null.',
     'The binding code is compiled with the model; the slots of the registered types are followed as the interpreter would call them, on C++ objects that implement the uni interfaces with symbolic values. Counts, allocations, deletions and errors are read from the memory of the analysed program.')
prop('V03', 'Vectors become text component by component',
     'Printing a vector to a stream, std::to_string and std::to_wstring give exactly the texts that the components X, Y, Z and W give on their own, in this order, with one space between them and nothing around them, for every element type '
     'and all values, for scalar and SIMD vectors.',
     ['inputs'], 'all values of all element types', 'no test prints a vector or converts one',
     ['datas/vectors_stream.hpp', 'datas/vectors_string.hpp'],
     [('operator<<', 'datas/vectors_stream.hpp'), ('std::to_string', 'datas/vectors_string.hpp')],
     'provenance dataflow over clang IR',
     'How the standard library prints a number is opaque: a function of value and type. Stream states and formats other than the default are not changed by the functions, which is not stated.',
     'Both the vector and its components one after another are printed in the abstract; the resulting characters must be the same terms.')
prop('L01', 'Macro loops visit every argument once, in order; counts are right',
     'VA_NARGS is the number of its arguments and StaticFor and StaticForArgID evaluate exactly each argument once, in order and with its index, for 1 to 89 arguments of any shape, with functions and macros as evaluators. So reflected classes and '
     'enumerations of up to 89 members have exactly these members, with their names, places and values.',
     ['programs'], 'all numbers of arguments from 1 to 89; four shapes of arguments', 'the tests use few arguments: most lengths never occur',
     ['datas/macroLoop.hpp', 'datas/internal/reflector_class.hpp', 'datas/internal/reflector_enum.hpp'],
     [('VA_NARGS, StaticFor, StaticForArgID', 'datas/macroLoop.hpp')],
     'expansion of macros and constant dataflow over clang IR',
     'Both preprocessors of the sandbox, clang and gcc. Classes and enumerations of seven sizes are analysed as a whole.',
     'Every number of arguments is expanded by the preprocessor, without compiling or running, and the tokens are compared with the sequence of evaluations; GetReflectedClass and GetReflectedEnum are interpreted for the sizes.')
prop('Q01', 'Test macros fail exactly when the expectation does not hold, and say which',
     'TEST_CHECK, TEST_NOT_CHECK, TEST_EQUAL, TEST_NOT_EQUAL, TEST_GT, TEST_LT, TEST_GT_EQ and TEST_LE_EQ return from the test with an error exactly when the expectation does not hold, for operands of any form, type and value including NaN, evaluate '
     'each operand once if it holds and otherwise print one error with the line and the operands. TEST_THROW passes exactly when the named exception or one derived from it is thrown. TEST_CASES runs every case once, in order, with its arguments, '
     'sums up the results, names failed cases and counts the others.',
     ['inputs', 'programs'], 'all values of operands; operands and exceptions of a list', 'the tests are written with these macros: one that passes too often passes all of them',
     ['datas/unit_testing.hpp'],
     [('TEST_EQUAL, TEST_CHECK, TEST_THROW, TEST_CASES', 'datas/unit_testing.hpp')],
     'constant and boolean dataflow over clang IR',
     'A list of operand forms (operators of lower precedence than the comparison among them), types and exceptions.',
     'What the macro returns is computed as a function of all operands and compared with the negated expectation, written with parentheses; the printed messages are read from the modelled printer.')
prop('W01', 'Havok presets name scale, axes and extensions of the settings',
     'GetCorrectionMatrix names, row by row, the axis of the entry that is not zero, X, Y or Z, with a minus sign before it exactly if the entry is negative, for every matrix of axes of any length, with either sign of zero. SaveHKPreset appends '
     'one element HavokPreset with this name, whose children are the scale, with at least six digits, the matrix and one element for each extension, in order, after what is already there.',
     ['inputs'], 'all 48 matrices of axes in three lengths, all scales, lists of extensions and names', 'there are no tests: the header needs classes of the 3ds Max SDK',
     ['MAXex/hk_preset.hpp'],
     [('GetCorrectionMatrix', 'MAXex/hk_preset.hpp'), ('SaveHKPreset', 'MAXex/hk_preset.hpp')],
     'constant and provenance dataflow over clang IR',
     'Matrix3 of the SDK is four rows of numbers. pugixml is modelled as a tree. Names of presets with markup characters are texts of attributes, which pugixml escapes.',
     'The text is computed for each matrix; the saved tree is read as a sequence of elements, attributes and texts, in which the scale is the printed number of an unknown value.')
prop('W03', 'Suffixes of 3ds Max nodes list exactly what was requested',
     'For every sequence of requests INodeSuffixer generates, in square brackets, the letter U and the requested channels in ascending order if there are any, then N, S and M exactly if normals, skin and morph were requested. Colors add channel 0 once, '
     'full colors channel 0 once and channel -2; the name of a class and parentheses surround this if a name is given. Generating changes neither the name nor later results.',
     ['inputs', 'histories'], 'all sequences of requests, channels and names', 'there are no tests',
     ['MAXex/NodeSuffix.h'],
     [('INodeSuffixer::Generate', 'MAXex/NodeSuffix.h')],
     'constant dataflow over clang IR',
     'The header uses ES_FORCEINLINE and ES_INLINE, which its includer has to define. Sequences of up to 41 requests, all combinations of the requests; wide and narrow builds; wide numbers of up to three characters.',
     'The driver performs each sequence of requests on a new object; the text that comes out is computed and compared with the required one.')
prop('W02', 'Wrappers of 3ds Max maps and materials read back what they set',
     'Every accessor of CompositeTex layers, Mix, NormalBump, RGBMultiply, VertexColor and PhysicalMaterial reads the parameter it sets and no other; resizing a CompositeTex keeps the first layers and leaves exactly the requested number.',
     ['inputs', 'histories'], 'all values and sizes', 'there are no tests: the headers need the 3ds Max SDK',
     ['MAXex/CompositeTex.h', 'MAXex/MapsCore.h', 'MAXex/PhysicalMaterial.h', 'MAXex/NodeSuffix.h'],
     [('ACCFUNC', 'MAXex/MapsCore.h'), ('CompositeTex::Resize', 'MAXex/CompositeTex.h')],
     na='The headers cannot be compiled from this tree: they use ES_FORCEINLINE and ES_INLINE, which the library no longer defines, a template parameter that hides another (accepted by old versions of MSVC only), and '
        'the 3ds Max SDK. There is no program to analyse, and which parameters are right is only known to the SDK.')
