#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))
B='butte/src/builder.rs'; V='butte/src/vector.rs'; T='butte/src/table.rs'; VT='butte/src/vtable.rs'
PR='butte/src/primitives.rs'; ES='butte/src/endian_scalar.rs'; PU='butte/src/push.rs'; VW='butte/src/vtable_writer.rs'
CG='butte-build/src/codegen.rs'; IR='butte-build/src/ir/transform.rs'; IT='butte-build/src/ir/types.rs'
PA='butte-build/src/ast/parser.rs'; CO='butte-build/src/compile.rs'; MA='butte-build/src/main.rs'; KW='butte-build/src/ir/keywords.rs'
AT='butte-build/src/ast/types.rs'

p('C01','What is built reads back: builder to reader round trip',
  'Any tree of tables, vectors, strings, structs and scalars written with the buffer builder by any legal sequence of its calls and then finished reads back through the runtime\'s root, table, vector, string and slice readers as exactly the values written, bit for bit and in order. A table field that was not stored reads as the default the caller supplies, or as absent if none is supplied. This holds whatever else was written into the same buffer, in whatever order children and fields were written, and however often the buffer grew.',
  ['inputs','histories'],'every value tree and every legal interleaving of builder calls, initial capacity and growth point',
  'the suite builds three small fixed trees through generated code; none varies the call order, the capacity, sharing, or scalar extremes',
  [B,T,V,PR,PU,ES],[('push/align/make_space place every object back to front',B+': push, align, make_space'),('grow_owned_buf moves live data to the new end',B+': grow_owned_buf'),('write_vtable records where each field lies',B+': write_vtable'),('Table::get and Follow impls resolve offsets',T+', '+PR+', '+V)],
  ['FlatBufferBuilder public API','Table::get','Vector','&str / &[T] Follow'])
p('C02','Finished buffers are well-formed FlatBuffers',
  'Every buffer the builder finishes obeys the FlatBuffers binary format as judged by an independent decoder: little-endian scalars, every offset in bounds and leading to the object intended, every scalar, struct, offset, length and vtable at its natural alignment relative to the buffer\'s first byte, strings terminated by a zero byte, and each vtable stating its own length, the table\'s true inline size and the position of exactly the stored fields. Objects never overlap, and every byte belonging to no object is zero. The total length is a multiple of the largest alignment used.',
  ['inputs','histories'],'every value tree and every legal sequence of builder calls, finished with or without identifier and size prefix',
  'the tests only read buffers back with the same library, so a consistent error on both sides, misalignment, overlap or leaked stale bytes go unseen',
  [B,VW,PU,ES],[('align pads before each object',B+': align, padding_bytes'),('finish_with_opts aligns the whole buffer',B+': finish_with_opts'),('VTableWriter writes lengths and offsets, clear() undoes a duplicate',VW)],
  ['finished_data() bytes'])
p('C03','Reading arbitrary bytes is total and exact',
  'For every byte sequence and every reader of the runtime library (root, size-prefixed root, table field of any type, vector length, element, iteration, string and byte or number slice), the call returns without panicking or overflowing. It yields an error whenever the bytes it designates do not lie wholly inside the buffer, a string is not zero-terminated or is not UTF-8, or a non-empty slice would be misaligned. (Misaligned empty slices may be answered either way, and a table or vector outside the buffer may be refused when it is reached or when it is read.) Otherwise it yields exactly the value those bytes designate under the format.',
  ['inputs'],'every byte string of any length and content, every field slot and type asked for, in builds with and without overflow checks',
  'no test reads a damaged or hostile buffer at all',
  [T,VT,V,PR,ES],[('bounds-checked slice access before every read',ES+': read_scalar_at'),('vtable lookup bounded by stored vtable length',VT+': get'),('string checks',V+': Follow for &str'),('signed vtable offset arithmetic',PR+': BackwardsSOffset')],
  ['Table::get_root','Table::get','Vector::{len,get,iter}','Follow impls'])
p('C04','The safe API never causes undefined behaviour',
  'No sequence of calls to the runtime library\'s safe API, whatever the builder\'s initial capacity, the address alignment of the buffer being read, and the buffer\'s contents, performs an out-of-bounds or misaligned memory access, reads uninitialised memory, or creates an invalid value or reference.',
  ['inputs','histories','configurations'],'all call sequences, capacities, address alignments and contents',
  'ordinary tests run without an interpreter or sanitizer, on aligned buffers with default capacity, and x86 hides misaligned access',
  [ES,B,V,VW],[('raw pointer reads and writes of scalars',ES+': emplace_scalar, read_scalar'),('raw slice construction',V+': safe_slice, follow_slice_helper, follow_cast_ref'),('write_bytes',B+': reset, grow_owned_buf; '+VW+': clear'),('uninitialised SmallVec',B+': create_vector_of_strings')],
  ['Miri and AddressSanitizer reports'])
p('C05','Finished bytes depend only on the build calls made',
  'The finished bytes depend only on the sequence of build calls since the builder was created or last reset. Initial capacity, when and how often the buffer grows, anything done before a reset (including an abandoned half-built table or vector and a finished buffer), and cloning the builder midway make no difference; nothing written before a reset is visible afterwards.',
  ['histories','configurations'],'every history of build, abandon, finish, reset and clone steps, and every initial capacity',
  'no test calls reset, clone or new_with_capacity, and none compares two builders',
  [B],[('reset clears every piece of state and re-zeroes the dirty part',B+': reset'),('grow_owned_buf relocates and zeroes',B+': grow_owned_buf')],
  ['finished_data()','unfinished_data()','num_written_vtables()'],
  [dict(name='field_locs',meaning='fields of the table under construction',where=B),dict(name='written_vtable_revpos',meaning='vtables available for sharing',where=B),dict(name='min_align',meaning='largest alignment used',where=B)])
p('C06','Table layouts are shared exactly when equal; defaults cost nothing',
  'Within one buffer two tables share a vtable exactly when their layouts (inline size and the position of every stored field) are identical, so the builder reports exactly one vtable per distinct layout, and every table is read through a vtable describing its own layout. A field pushed with a default-aware push is stored if and only if its value differs from the default (floats compare as numbers, so -0.0 equals 0.0 and NaN equals nothing); a field pushed unconditionally is always stored; a vtable has no entries beyond the last stored field.',
  ['inputs','histories'],'every sequence of tables with arbitrary sets, orders, widths and values of fields in one buffer',
  'no test looks at the number of vtables or at presence on the wire',
  [B,VT,VW],[('find_duplicate_stored_vtable_revloc compares serialized vtables',B),('push_slot skips defaults',B+': push_slot'),('get_vtable_byte_len',B)],
  ['num_written_vtables()','vtable region of the finished bytes'])
p('C07','Illegal builder use is refused, legal use never is',
  'In builds with debug assertions, starting a table, vector or string while another is open, ending a table or vector or adding a field when nothing is open, finishing twice or with something open, asking for finished data before finishing, writing one slot twice, ending a table of more than 65535 bytes, omitting a field later declared required, or giving an identifier that is not four bytes is refused by a panic. A builder never hands out a buffer larger than two gibibytes: it refuses to grow instead. No legal call sequence is ever refused.',
  ['histories'],'every sequence of builder calls, legal or not',
  'no test misuses the builder',
  [B],[('nested/finished flags',B+': assert_nested, assert_not_nested, assert_finished, assert_not_finished'),('required',B+': required'),('size limit',B+': new_with_capacity, ensure_capacity')],
  ['panics at the call'])
p('C08','All views of a vector agree',
  'For every vector, the length, emptiness test, indexed access, forward and backward iteration, any mixture of next, next_back, nth, nth_back and skipping, size hints, clones of a half-used iterator, and direct slices describe the same sequence of elements. Indexing at or past the length gives an error, and iterators stay exhausted.',
  ['inputs','histories'],'every vector of any element type and length and every sequence of iterator operations, including huge skip counts',
  'tests iterate two-element vectors forward once',
  [V],[('VectorIter loc/remaining bookkeeping',V+': next, next_back, nth, nth_back'),('Vector::get',V),('safe_slice',V)],
  ['Vector','VectorIter'])
p('C09','Readers accept every conforming buffer, whoever wrote it',
  'A buffer that conforms to the FlatBuffers format but was laid out by a different writer reads back as exactly the values it contains: fields in any order with any padding, vtables before or after their tables, shared or not, shorter or longer than the reader\'s schema, explicit default values, children placed in any order or shared, and any bytes in the gaps.',
  ['inputs'],'every value tree and every conforming layout of it',
  'every buffer the tests read was produced by this builder, which emits only one layout per value',
  [T,VT,V,PR],[('BackwardsSOffset handles vtables on either side',PR),('VTable::get treats slots past the vtable\'s end and zero entries as absent',VT),('Table::get',T)],
  ['Table::get','Vector','&str'])
p('C10','Root, identifier and size prefix framing',
  'Finishing with a root, optionally a four-byte identifier and optionally a size prefix, gives bytes whose size prefix equals the number of bytes following it, whose identifier test succeeds for exactly the identifier given and the framing used, and whose (size-prefixed) root reader finds exactly the given root. Buffers too short to hold the framing give an error, never a wrong answer.',
  ['inputs','configurations'],'every root, identifier, prefix choice and alignment content, and every truncation',
  'no test uses identifiers or size prefixes',
  [B,T,PR],[('finish_with_opts order and alignment',B),('buffer_has_identifier, get_size_prefixed_root',T),('SkipSizePrefix, SkipRootOffset, FileIdentifier',PR)],
  ['finished_data()','buffer_has_identifier','get_root','get_size_prefixed_root'])
p('C11','The schema compiler is total',
  'For every input (any bytes, valid or invalid schema, supported or unsupported construct, with nesting up to a fixed depth) compiling a schema terminates and either succeeds or returns an error; it never panics.',
  ['inputs','programs'],'every input byte sequence with type or value nesting depth at most 64',
  'tests feed the parser well-formed snippets and a handful of malformed ones, and never run the whole compiler on invalid input',
  [CO,PA,IR,CG],[('error returns instead of panics',CO+': compile_fbs_generic'),('semantic checks before code generation',IR)],
  ['compile_fbs_generic result'])
p('C12','Accepted schemas generate Rust that compiles',
  'Whenever the compiler accepts a schema from the supported language (tables, enums, unions, namespaces, services, all scalar types, strings, nested vectors, defaults, required fields, keyword and mixed-case names) whose names stay distinct after case conversion, the emitted code compiles without errors against the runtime library.',
  ['programs'],'every valid schema in the supported language',
  'only three fixed schemas are ever compiled',
  [CG,IR,IT,KW],[('identifier fixing',IT+': fix_identifier; '+KW),('relative paths between namespaces',IT+': relative'),('lifetimes and wrappers',CG+': to_type_token')],
  ['rustc on the generated module'])
p('C13','Generated code round-trips every value of the schema',
  'For every schema the compiler accepts and every value of its tables, building the value with the generated create function and reading it with the generated accessors returns the same value: each accessor returns the value given for its own field (a float numerically equal to its default may come back as the default), unset optional fields read as absent, and nested tables, unions, enums, strings and vectors of these come back equal and in order.',
  ['programs','inputs'],'every supported schema and every value of its root table',
  'tests round-trip a few values of three fixed schemas and most accessors are never called',
  [CG,IR],[('args/builder/accessor generation per field',CG),('slot constants VT_*',CG+': field_offset_constants')],
  ['generated create and accessors'])
p('C14','Generated code uses the wire format its schema prescribes',
  'For every accepted schema, buffers written by the generated code decode, under an independent decoder that knows only the schema, to the value written, and conforming buffers written by an independent encoder from the schema are read by the generated accessors as the value encoded. Fields occupy slots in declaration order, a union occupying a type slot followed by a value slot, and every scalar and enum has the width, signedness and byte order of its declared type.',
  ['programs','inputs'],'every supported schema, every value, every conforming layout',
  'generated writer and reader are only ever tested against each other',
  [CG,IR,IT],[('slot numbering',CG+': field_offset_constants'),('scalar type mapping',CG+': to_type_token; '+IR+': try_type'),('union companion field',IR+': new_table')],
  ['finished bytes','generated accessors'])
p('C15','Declared field defaults are honoured exactly',
  'For every scalar or enum field, the value read when the field is absent from the buffer, the value the generated argument defaults use, and the value whose writing is elided are all exactly the default the schema declares, in any literal notation (signed, decimal, hexadecimal, exponent and hexadecimal floats, inf and nan, booleans, enum variants), or zero/false when a non-enum scalar declares none. Any value that differs from the default (floats compare as numbers) is stored and read back.',
  ['programs','inputs'],'every scalar type, every literal and notation in range, every value',
  'codegen tests print two extreme literals per type; only four defaults are ever read through compiled code',
  [CG,PA,AT,IR],[('literal parsing',PA+': scalar and constants'),('implicit defaults',AT+': TryFrom<&Type> for DefaultValue'),('literal emission',CG+': to_default_value, fmt_lit')],
  ['generated accessors','generated Args::default','wire bytes'])
p('C16','Enums and unions carry the discriminants the schema defines',
  'A generated enum\'s variants have the explicit values the schema gives, or one more than the previous variant (zero for the first), its conversions to and from the base type agree with that, its name function gives every variant the name it has in the generated code, and its default is the first variant. A union\'s type field numbers variants the same way after a zero none value and the union accessor returns the variant the stored type selects. A stored discriminant the schema does not define yields an unknown-variant error, never a wrong variant.',
  ['programs','inputs'],'every enum and union declaration and every stored discriminant',
  'one enum without explicit values and one two-variant union are exercised; unknown discriminants never',
  [CG,IR],[('variants_and_scalars',CG+': ToTokens for ir::Enum'),('TryFrom<base>',CG),('companion enum',IR+': generate_enum_for_union')],
  ['generated enum items','table accessors over wire bytes'])
p('C17','Required fields are enforced, optional ones never are',
  'A generated accessor for a required field of a table, string, vector or union type returns the stored value, or an error naming that field when the buffer lacks it; an accessor for an optional field of those types returns absence instead of an error. The generated writer can always produce a table that satisfies its own required fields, for every value of them including scalars equal to their default, and the generated builder refuses to finish a table that lacks one.',
  ['programs','inputs'],'every table with any mixture of required and optional fields and every subset of them present on the wire',
  'one codegen test counts the word required; the missing-field error is never produced',
  [CG,B,T],[('ok_or(RequiredFieldMissing)',CG+': field_accessors'),('required()',B+': required')],
  ['generated accessors','generated create'])
p('C18','Declaration order and namespaces do not change meaning',
  'Reordering the declarations of a schema (keeping each in its namespace and the field order within it) neither makes the compiler reject it nor changes which type any field, union variant or service method refers to or where it is found; each reference resolves to the type its qualified name, or its unqualified name in the namespace where it is written, denotes. Types of the same name in different namespaces are never confused.',
  ['programs'],'every supported schema and every permutation of its declarations, including mutual recursion and several namespaces',
  'tests cover a few fixed orders; forward references across namespace changes and recursive unions are absent',
  [IR,IT],[('multi-pass resolution in build',IR+': build'),('namespace tracking',IR+': new_namespace, make_fully_qualified_*'),('relative paths',IT+': relative')],
  ['generated code (items compared as sets per module)'])
p('C19','Whitespace and comments do not change the generated code',
  'Changing the whitespace (spaces, tabs, line breaks of either style) or adding `//` line comments between the tokens of a schema does not change whether it is accepted or the code generated from it, and doc comments change only documentation attributes of the item they precede, where their lines come out in order. The text inside comments is never interpreted.',
  ['programs'],'every supported schema and every placement of whitespace and comments between its tokens, any comment text',
  'parser tests place a few comments by hand; comment text that looks like schema is absent',
  [PA],[('comment_or_space0/1 between tokens',PA),('doc_comment',PA)],
  ['compile_fbs_generic output'])
p('C20','One schema, one output: deterministic and equal through every entry point',
  'Compiling the same schema text always produces the same bytes, within one process and across processes. The formatted and unformatted outputs contain the same Rust tokens, and the library function, the build-script function and the command-line tool in each of its input and output modes produce the same code in the output they were given (for build scripts, the file in OUT_DIR named after the schema), with a failure exit for exactly the inputs the library rejects and no code written for those.',
  ['programs','configurations'],'every schema, accepted or rejected, and every entry point, repeated across processes with different hash seeds',
  'no test compiles a schema twice, runs the tool on schema text, or compares outputs',
  [CO,MA,IR],[('ordered node maps',IR+': build (BTreeMap)'),('rustfmt pipe',CO),('CLI options',MA)],
  ['bytes written to the output','process exit status'])
p('C21','I/O faults during compilation surface as errors, never as partial success',
  'If reading the schema fails or yields invalid UTF-8, if writing or flushing the output fails at any byte, or if the formatter cannot be run or fails, compiling returns an error. When it returns success the complete output was delivered, whatever short reads, short writes or interrupted calls occurred on the way; and a schema that is rejected delivers no output.',
  ['fault_sequences','crash_points'],'every position of a failing, short or interrupted read, write or flush and every way the formatter can fail',
  'tests never inject an I/O fault',
  [CO],[('error propagation with ?',CO+': compile_fbs_generic'),('write_all/read_to_string retry short and interrupted calls',CO)],
  ['compile_fbs_generic result and bytes received by the writer'])
p('C22','Invalid schemas are rejected, valid ones are not',
  'The compiler returns an error, and no code, for a schema that refers to an undefined type, defines a type twice, gives an enum a non-integer base type, puts a non-scalar in a struct, names a root type or service message that is not a table, gives an unknown or missing streaming mode, gives a field a default its type cannot hold, gives two variants the same value or a value outside the base type, puts something other than a table in a union, uses a construct the compiler has no code for (structs, vectors of unions, attribute declarations, file identifiers and extensions, JSON objects), or contains text outside the grammar. A valid schema of the supported language is never rejected.',
  ['programs'],'every valid schema and every single-fault mutation of it from the listed classes',
  'only a few rejections are tested, each on one tiny schema, and validity is never tested at scale',
  [IR,PA,CO],[('type already defined / bad base type / only tables can be root types',IR),('incomplete parse detection',CO),('progress check',IR+': build')],
  ['compile_fbs_generic result'])
p('C23','Services reach the RPC generator completely and exactly once',
  'A pluggable service generator is called exactly once per declared service, and receives its qualified name, its documentation and all its methods in declaration order, each with its own name, snake-case name, fully qualified request and response types, streaming mode and documentation; whatever it emits appears in the output inside the service\'s namespace. Without a generator services produce no code and do not disturb the rest.',
  ['programs'],'every schema with any number of services, methods, namespaces and streaming modes',
  'the tests check the parsed form of two services and never plug in a generator',
  [CG,IR],[('node_to_tokens for Rpc',CG),('new_rpc',IR)],
  ['RpcGenerator::generate calls','output'])
p('C24','Generated accessors are total and exact on arbitrary bytes',
  'For every accepted schema and every byte sequence, each accessor of the generated code, followed through nested tables, unions, vectors and strings, returns without panicking. It yields an error or exactly the value the bytes designate under the schema, and agrees with an independent lenient decoder on which of the two.',
  ['programs','inputs'],'every supported schema and every byte string',
  'no test gives generated code a damaged buffer',
  [CG,T,VT,V,PR],[('Result-returning accessors',CG+': field_accessors'),('bounds-checked runtime',T+', '+V)],
  ['generated accessors'])
p('C25','Schema evolution: appended fields keep old and new code compatible',
  'When fields are appended to a table, variants are appended to an enum or union, or new types are added, code generated from the old schema reads every shared field of buffers written by the new code unchanged, and code generated from the new schema reads buffers written by the old code with the new fields absent or at their declared defaults. An enum or union variant the old schema lacks is reported as unknown.',
  ['programs','inputs'],'every pair of schemas related by appending, every value on either side',
  'tests never use two versions of one schema',
  [CG,T,VT],[('slots by declaration order',CG),('absent beyond vtable end',VT+': get')],
  ['generated accessors of both versions'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: 
        assert len(x['title'])<=80, x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
