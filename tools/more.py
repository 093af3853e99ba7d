p('P02', 'Every type works in every position it can be written in',
  'Whatever kind of type is used where (top level, field, conditional field, nested or conditional container, array element, element of an array of arrays, tagged-enum variant, inside a length-constrained container, behind an alias), its values are encoded as the type says at that position, decoding accepts exactly those encodings and gives the values back, and the fields around it are unaffected.',
  ['inputs'], 'every byte string up to about two elements and every value with lists of at most 2 elements, for 36 kinds of type in 18 positions each',
  TESTS + 'The product of types and positions is hardly touched: most pairs were never compiled.',
  GEN + [S + 'coder/decode/array.rs', S + 'coder/encode/array.rs', S + 'coder/decode/container.rs', S + 'coder/encode/container.rs', S + 'compiler/mod.rs'],
  [('field coding, by kind of type', S + 'coder/decode/field.rs; ' + S + 'coder/encode/field.rs'), ('generated types and codecs', S + 'compiler/')],
  'all inputs within the size bounds for each pair of type and position')

p('P14', 'Expressions compute what their operators, types and precedence say',
  'Calculated fields, conditions, lengths, transform and type arguments evaluate every expression (arithmetic, bitwise, shift, comparison, logical, unary, ternary, optional default `?:`, cast, index, member, enum constant, call) to the value its operators define at its type, with the documented precedence and associativity, operands widened to the expected type, only the chosen branch of `? :` and `?:` evaluated. Results outside the type (overflow, division by zero) are outside the claim.',
  ['inputs'], 'every value of the operand fields, for all operators at all ten integer types, all casts and widenings, every pair of operators nested either way, and 300 (thorough: 1500) generated expression trees',
  TESTS + 'Expressions in tests are single operators over u8 or u32 constants; signedness, width and nesting are not sampled.',
  [S + 'parser/expression/mod.rs', S + 'semantics/convert/expression/mod.rs', S + 'semantics/partial_type.rs', S + 'compiler/expr.rs'],
  [('precedence', S + 'parser/expression/'), ('types of expressions', S + 'semantics/convert/expression/'), ('emitted expressions', S + 'compiler/expr.rs')],
  'all operand values for each expression of the family; mathematical results outside the type excluded')
p('P15', 'Transforms apply in order, to their field only, and undo on decoding',
  'A field, container or type with transforms is encoded by running its encoding through them left to right with the stated arguments, a transform with a false condition being skipped; decoding undoes exactly that. Whatever stands before or after the transformed content is encoded and decoded as if there were no transform, and a transform which has bytes left to write when its content ends gets them written in place.',
  ['inputs'], 'every byte string up to 3-9 bytes and every value with lists of at most 2 elements, 12 lists of transforms on 19 kinds of content plus 8 with a transform of the whole stream; the transforms are test transforms (xor, add, trailer), gzip and base64 are third-party code',
  TESTS + 'Tests have one gzip or base64 field at the end of a container.',
  [S + 'coder/decode/field.rs', S + 'coder/encode/field.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs', S + 'semantics/convert/mod.rs'],
  [('wrapping of streams', S + 'coder/decode/field.rs; ' + S + 'coder/encode/field.rs'), ('emitted wrappers', S + 'compiler/decoder.rs; ' + S + 'compiler/encoder.rs')],
  'all inputs within the size bounds; transforms which read their input only when asked')
p('P16', 'Type arguments and their defaults reach the type they are given to',
  'A reference to a type with parameters decodes and encodes it with the values of its argument expressions in the context of the reference, in the order of the parameters, and with the declared default for an omitted argument, through any number of nested references and in lengths, conditions, calculations, pads and transforms of the target.',
  ['inputs'], 'every byte string up to 3-9 bytes, every argument value and every value with lists of at most 2 elements, over a family of parameterised types',
  TESTS + 'Few tests pass arguments, none combines defaults, nesting and widening.',
  [S + 'semantics/convert/type_/type_ref.rs', S + 'semantics/convert/mod.rs', S + 'coder/decode/mod.rs', S + 'coder/encode/mod.rs', S + 'compiler/mod.rs'],
  [('argument passing', S + 'coder/decode/mod.rs; ' + S + 'coder/encode/mod.rs'), ('defaults', S + 'compiler/mod.rs')],
  'all inputs and arguments within the size bounds for each specification of the family')
p('P17', 'Asynchronous codecs do what the synchronous ones do',
  'For every type, `decode_async` accepts exactly what `decode_sync` accepts, with the same value and position in the stream, and `encode_async` writes the bytes `encode_sync` writes, however the transport splits the data and whenever it makes the task wait; a failing transport is reported and what was written before it is a prefix of the encoding.',
  ['inputs', 'schedules', 'faults'], 'every input up to 3-8 bytes (24 for wide scalars) or value with lists of at most 2 elements, pieces of at most 1, 3 or 64 bytes, a wait or a lasting failure at each of the first 5 (thorough: 12) calls, for one type per language feature',
  TESTS + 'No test runs an asynchronous codec.',
  [S + 'compiler/mod.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs', S + 'prelude/utf8.rs', S + 'prelude/var.rs'],
  [('asynchronous emission', S + 'compiler/decoder.rs; ' + S + 'compiler/encoder.rs; ' + S + 'compiler/mod.rs')],
  'all inputs, waits and failures within the bounds; types containing themselves need the async_recursion crate, which is not available here')
p('P18', 'Codecs do not depend on how the transport delivers or takes bytes',
  'Decoding from a reader that delivers the bytes in arbitrary pieces or is interrupted gives the value and position of decoding them at once, encoding to a writer that takes them in pieces gives it the same bytes, and an error of the reader or writer is reported by the codec, never turned into a value or a success, with a prefix of the encoding written.',
  ['inputs', 'schedules', 'faults'], 'every input up to 3-12 bytes (24 for wide scalars) or value with lists of at most 2 elements, pieces of at most 1, 3 or 64 bytes, an interruption or a lasting failure at each of the first 7 (thorough: 12) calls, for one type per language feature',
  TESTS + 'Tests only use in-memory slices and vectors.',
  [S + 'compiler/decoder.rs', S + 'compiler/encoder.rs', S + 'compiler/mod.rs', S + 'prelude/utf8.rs', S + 'prelude/utf16.rs', S + 'prelude/var.rs'],
  [('reads and writes of the generated code', S + 'compiler/decoder.rs; ' + S + 'compiler/encoder.rs; ' + S + 'prelude/')],
  'all inputs, pieces and failures within the bounds')
FET = 'Parser and tokenizer tests assert on a few fixed texts each; '
p('P19', 'Constant expressions evaluate exactly in their type or are rejected',
  'A constant expression in an enum or bitfield value evaluates step by step in the representation type: each operator gives the mathematical result if the type holds it, and otherwise (overflow, division by zero, shift by the width or more, operands of different types) the specification is rejected; no constant expression makes the compiler panic. Literals, references to constants and enum members (including implicit values), casts and ternaries take the declared values.',
  ['inputs'], 'program text with operands of up to 3 free digits in each operator and type, every pair of values of the constant operations of every type (multiplication and division: 8 bits)',
  FET + 'no test evaluates a constant at the edge of its type.',
  [S + 'compiler/expr.rs', S + 'semantics/convert/type_/enum_.rs', S + 'semantics/convert/type_/bitfield.rs', S + 'asg/expression/const_int.rs'] ,
  [('constant arithmetic', S + 'asg/expression/const_int.rs'), ('evaluation of constant expressions', S + 'compiler/expr.rs')],
  'all texts of the listed shapes and all pairs of values within the stated bounds', fe=True)
p('P20', 'Tokenization is longest match over the documented tokens and nothing else',
  'Every text is split into exactly the tokens of the language: the longest token at each position, whitespace and comments separating tokens, keywords only as whole words, string literals with their escapes, integers with their base; a text with something which is no token (an unknown character, an unterminated string or comment) is rejected, and no text makes the tokenizer panic.',
  ['inputs'], 'every text of 3 arbitrary bytes, and every text of up to 15 bytes of the listed shapes (operators, words, keywords with any byte changed, integers, strings, comments)',
  FET + 'adjacent tokens, prefixes of keywords and malformed literals are not varied.',
  [S + 'tokenizer.rs'], [('tokenizer', S + 'tokenizer.rs')],
  'all texts of the listed shapes; identifiers are ASCII', fe=True)
p('P21', 'Source positions point at the text they are reported for',
  'The span of every token starts at the line and column of its first character and ends one past its last, counted from one, whatever line breaks, comments and multi-line strings precede it; the sum of two spans runs from the earlier start to the later end; and the span of every name and expression of the syntax tree starts and ends with its text, whatever operators, parentheses and line breaks it is made of, that of a type where the type starts.',
  ['inputs'], 'every text of 3 arbitrary bytes and up to 15 bytes of the listed shapes with line breaks at every free position; every pair of spans; programs of each construct with every combination of listed parts and line breaks between them',
  FET + 'none checks positions after a comment or a string with a line break, or of parts of an expression.',
  [S + 'tokenizer.rs', S + 'parser/expression/', S + 'parser/types/mod.rs'], [('line and column counting', S + 'tokenizer.rs'), ('positions in the tree', S + 'parser/expression/; ' + S + 'parser/types/')],
  'all texts of the listed shapes', fe=True)
p('P22', 'Integer literals are exact and accepted exactly when they fit their type',
  'A decimal or hexadecimal literal denotes its mathematical value in whatever type its suffix or context gives it, with any number of leading zeros, and a specification with a literal which does not fit that type is rejected.',
  ['inputs'], 'every literal with the leading digits of the largest value of each of the ten integer types and up to 3 (thorough: 4) free digits, and hexadecimal literals with 2 free digits, in enum values, bitfield values, constants and with suffixes',
  FET + 'no test has a literal at the edge of a type.',
  [S + 'asg/expression/const_int.rs', S + 'semantics/convert/expression/int.rs', S + 'parser/expression/primary.rs'],
  [('literal conversion', S + 'asg/expression/int.rs; ' + S + 'semantics/convert/expression/int.rs')],
  'all literals of the listed shapes', fe=True)
p('P24', 'A text parses exactly if it is a program, and to the tree the grammar gives it',
  'The parser accepts exactly the texts of the grammar and gives the tree it denotes: binary operators by precedence and left to right, ternaries, casts, calls, indexing and members binding as documented, and declarations, types, lengths, fields, flags, conditions, transforms, arguments, enum items in the order written with nothing dropped or invented.',
  ['inputs'], 'expressions of up to 4 operands with every combination of operators, declarations of each construct with every combination of the listed parts, every single-byte change, deletion and truncation of listed programs',
  FET + 'each construct is tested once, combinations of operators and malformed variants are not.',
  [S + 'parser/mod.rs', S + 'parser/expression/', S + 'parser/types/', S + 'parser/declaration/', S + 'parser/field.rs'],
  [('expressions', S + 'parser/expression/'), ('types', S + 'parser/types/'), ('declarations', S + 'parser/declaration/')],
  'all texts of the listed shapes', fe=True)
p('P23', 'An expression is accepted exactly where its type fits',
  'Analysis accepts an expression in a position exactly when its type is the type the position expects or widens to it without loss (the sign is kept): conditions are bool, lengths and indices u64, calculated fields and arguments their declared type, operands of a binary operator agree, a literal takes the type expected of it, members exist, calls and types get arguments of the declared number and types; everything else is rejected.',
  ['inputs'], 'expressions of up to two operators over 37 operands of every kind (literals, fields, constants, arguments, enum members, calls) in 21 positions; numbers of any digits near the limits of all ten integer types where every type is expected',
  FET + 'they hold one well-typed program per feature and almost no ill-typed one.',
  [S + 'semantics/convert/expression/mod.rs', S + 'semantics/convert/expression/binary.rs', S + 'semantics/convert/expression/unary.rs', S + 'semantics/convert/expression/ternary.rs', S + 'semantics/partial_type.rs', S + 'asg/types/mod.rs'],
  [('expression typing', S + 'semantics/convert/expression/'), ('assignability of types', S + 'asg/types/mod.rs; ' + S + 'semantics/partial_type.rs')],
  'all combinations within the bounds; combinations whose typing is not documented are only required not to panic', fe=True)
p('P25', 'The compiler answers every text without panicking or running away',
  'For every text the tokenizer, the parser and the analysis return a program or an error, and code generation returns for every well-typed expression: no panic, no stack overflow, and a number of steps which does not explode with the nesting of the text, whatever names refer to, whatever is missing, repeated or exchanged, and whether or not types refer to themselves.',
  ['inputs'], 'a name of every kind in 30 places, every change of a byte (to any ASCII byte), deletion, truncation, and exchange of tokens of a listed program, self-referring types, expressions of up to two operators in 21 positions with code generation, nesting to a depth of 34',
  FET + 'malformed specifications are hardly tested, deep or self-referring ones not at all.',
  [S + 'semantics/convert/field.rs', S + 'semantics/convert/expression/mod.rs', S + 'semantics/convert/type_/mod.rs', S + 'parser/mod.rs', S + 'asg/types/mod.rs', S + 'coder/mod.rs'],
  [('analysis', S + 'semantics/'), ('types which refer to themselves', S + 'asg/types/mod.rs'), ('code generation', S + 'coder/; ' + S + 'compiler/')],
  'all texts of the listed shapes; steps within 60 million instructions', fe=True)
p('P03', 'Features combine: any mix of constructs encodes and decodes as each says',
  'A specification which mixes the constructs of the language in any way (nested containers, arrays of every kind, conditions, calculated fields, tagged enums, enums, bitfields, text, varints, pads, transforms, type arguments, aliases) is accepted, its code compiles, and each value is encoded to exactly the bytes and each byte string decoded to exactly the value that the parts in their order say; no input makes the decoder panic.',
  ['inputs'], 'every byte string up to some 8 bytes and every value with lists of at most 1 element, for 36 (thorough: 240) specifications drawn at random by a fixed seed',
  TESTS + 'They combine two features at most.',
  GEN + [S + 'coder/decode/field.rs', S + 'coder/encode/field.rs', S + 'coder/encode/container.rs', S + 'coder/decode/container.rs', S + 'compiler/mod.rs'],
  [('instructions for each construct', S + 'coder/'), ('emitted code', S + 'compiler/')],
  'all inputs within the size bounds for each drawn specification; expressions in them do not overflow')
p('P26', 'Imports bring in exactly what they name, once, and its generated code',
  'A program of several files is accepted exactly when every imported file and item exists, no two imported or declared things share a name, and no file imports itself directly or through others; the imported types stand for the declared ones under their own or the given name, also through further files, and code is generated for all that they need, with codecs which encode and decode as declared.',
  ['inputs'], 'programs of up to four files with every choice of the imported item, the name given, the file and what that file holds from lists of 3-12; codecs: every byte string up to 6 bytes',
  FET + 'one test imports one type.',
  [S + 'semantics/convert/program/import.rs', S + 'semantics/convert/program/mod.rs', S + 'semantics/convert/program/resolve.rs', S + 'compiler/mod.rs', S + 'import.rs'],
  [('import resolution', S + 'semantics/convert/program/'), ('generation of imported types', S + 'compiler/mod.rs')],
  'all combinations of the listed choices; imported functions and transforms outside the claim', fe=True)
p('P27', 'Padding takes exactly the stated number of bytes and nothing else',
  'A pad writes exactly as many zero bytes as its length says (a literal, a field, an argument, an expression, or `pad()` up to a multiple) at its place, decoding skips exactly as many bytes of any content, and fails if they are not there; the fields around it are unaffected, in containers of every kind and under conditions.',
  ['inputs'], 'every byte string up to 3-12 bytes and every value with lists of at most 2 elements, over a family of specifications with pads of each kind of length in each kind of container',
  TESTS + 'Two tests have a pad, both with one value.',
  [S + 'coder/decode/container.rs', S + 'coder/decode/field.rs', S + 'coder/encode/field.rs', S + 'prelude/pad.rs', S + 'parser/types/container.rs'],
  [('pads on the wire', S + 'coder/decode/; ' + S + 'coder/encode/'), ('pad()', S + 'prelude/pad.rs')],
  'all inputs within the size bounds for each specification of the family')
p('P28', 'Whatever things are called, the generated code compiles and does the same',
  'The names in a specification have no influence on what is encoded: a type, field, argument, enum item, flag or constant may be called like a keyword of Rust, like anything the generated code uses itself, or like another thing of a different kind, and fields of different types may share names.',
  ['inputs'], 'every byte string up to 3-9 bytes and every value with lists of at most 2 elements, for specifications with some 90 critical names in each place a name can stand',
  TESTS + 'Tests use harmless names.',
  [S + 'compiler/mod.rs', S + 'compiler/encoder.rs', S + 'compiler/decoder.rs', S + 'compiler/expr.rs', S + 'coder/decode/mod.rs'],
  [('emission of names', S + 'compiler/mod.rs'), ('resolution of names to values', S + 'compiler/decoder.rs; ' + S + 'compiler/encoder.rs')],
  'the listed names; names which map to one Rust name, and a few listed in DESIGN.md, are outside the claim')
p('P29', 'The order of declarations does not matter',
  'Types may refer to types declared later: in whatever order the declarations of a program stand (constants and enums keeping the order among themselves), it is accepted or rejected alike, and the code generated for every type is the same.',
  ['inputs'], 'every permutation of the declarations of some 30 programs of up to five declarations each, well formed and not, some with any numbers in them',
  FET + 'they declare before use almost everywhere.',
  [S + 'semantics/convert/program/mod.rs', S + 'semantics/convert/type_/mod.rs', S + 'semantics/convert/type_/type_ref.rs', S + 'semantics/convert/field.rs', S + 'asg/types/mod.rs'],
  [('two-pass conversion of declarations', S + 'semantics/convert/program/'), ('references to types', S + 'semantics/convert/type_/')],
  'all permutations of the listed programs', fe=True)
p('P04', 'Decoders of real formats withstand any input and give exactly what it says',
  'For formats of real protocols written in the language (DNS messages, PNG, TLS records, IPv4, MQTT, SOCKS, NetBIOS, RIFF, BitTorrent, ZIP, git, Kafka, ELF), any bytes, and any change to or cut of a valid message, decode to exactly the value that the format assigns to them, or are rejected, without panic or endless loop; every value is encoded to exactly its bytes, and these decode to it.',
  ['inputs'], 'byte strings of up to 6-33 bytes; messages of 20-70 bytes of which any 2 (thorough: 4) adjacent ones are arbitrary, or cut anywhere; values with lists of at most 1 element',
  TESTS + 'They know no such format but in part.',
  GEN + [S + 'coder/encode/container.rs', S + 'coder/decode/container.rs', S + 'compiler/mod.rs'],
  [('instructions for each construct', S + 'coder/'), ('emitted code', S + 'compiler/')],
  'all inputs within the size bounds for the formats listed')
p('P30', 'A name means its innermost declaration, and each is declared once',
  'In an expression anywhere in a specification a name stands for the field of the innermost container declared before it (for calculations: any field of the own container), else for the argument of the type, else for the constant; fields within a container are not seen outside, variants of a tagged enum not by each other, an argument only by later arguments. Names which stand for nothing there, and two declarations of one kind with one name, are rejected by an error which says which and where. Exactly the types which contain themselves are known to.',
  ['inputs'], 'programs of a type of up to nine items in two levels, an argument, a constant and another type with the same names, with one use of a name out of 4-8 at any item in any of ten roles; up to 3 top-level declarations of 8 kinds; 3 types of 5 shapes which contain each other',
  FET + 'they name each thing differently.',
  [S + 'semantics/scope.rs', S + 'semantics/resolve.rs', S + 'semantics/convert/field.rs', S + 'semantics/convert/type_/container.rs', S + 'semantics/convert/expression/var_ref.rs', S + 'semantics/convert/program/field.rs', S + 'semantics/convert/program/const_.rs', S + 'asg/program.rs'],
  [('resolution of names', S + 'semantics/resolve.rs'), ('scopes of containers and arguments', S + 'semantics/convert/')],
  'all programs within the bounds', fe=True)

p('P31', 'Types, functions and transforms take the arguments they declare',
  'Wherever a type, function or transform is used, exactly the numbers of arguments between its required and all its parameters are accepted, each argument has to fit the type of its parameter, and the analysed program has the given arguments in their order. A type whose required parameters follow optional ones cannot be used. Else the error says how many there can be and are, or which argument is wrong, and points there.',
  ['inputs'], 'up to three parameters (required, optional, in any order) of 4 kinds; up to four arguments out of 5 kinds, literals of three arbitrary digits; 9 places of use',
  FET + 'they use each function as it should be.',
  [S + 'semantics/convert/ffi_arguments.rs', S + 'semantics/convert/type_/type_ref.rs', S + 'semantics/convert/field.rs', S + 'semantics/convert/expression/call.rs'],
  [('arguments of functions and transforms', S + 'semantics/convert/ffi_arguments.rs'), ('arguments of types', S + 'semantics/convert/type_/type_ref.rs')],
  'all uses within the bounds', fe=True)
p('P32', 'Errors say what is wrong and point at it',
  'A program with one mistake is rejected by the error for that mistake; it names what is wrong, and its line and column range is that of the offending text, wherever line breaks and comments are; for redefinitions the original is located, too. The parser never reports what is before the mistake, the token it names is the one at the reported position, and for the beginning of a program it reports the missing end only.',
  ['inputs'], 'about 95 mistakes, each between white space of any kind; five programs cut anywhere, with one token removed, inserted or replaced by any of 25, or with any single byte replaced by any other',
  FET + 'they compare no positions.',
  [S + 'parser/token_iter.rs', S + 'parser/error.rs', S + 'semantics/error.rs', S + 'semantics/convert/field.rs', S + 'parser/expression/primary.rs', S + 'tokenizer.rs'],
  [('errors of the parser', S + 'parser/token_iter.rs'), ('errors of the analysis', S + 'semantics/convert/')],
  'all programs within the bounds', fe=True)
