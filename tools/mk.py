#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties with a check, or not applicable)."""
import importlib.machinery, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
S = 'protospec-build/src/'
GEN = [S + 'compiler/decoder.rs', S + 'compiler/encoder.rs', S + 'coder/decode/field.rs', S + 'coder/encode/field.rs']
TESTS = 'Existing tests compile a handful of specifications and run each on one to three fixed values; no test varies the bytes, and truncated or malformed input is never tried. '
P = []


def p(id, title, statement, over, text, why, files, mech, note, fe=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, fe=fe))


p('P01', 'Scalars are encoded and decoded exactly, in the declared byte order',
  'Every integer, float and bool type of every width and byte order is written as exactly its width in bytes, in the declared order (big endian unless marked le), and reading those bytes gives the same value, bit for bit, consuming exactly that width. Input shorter than the width is an error.',
  ['inputs'], 'every value of every scalar type, every byte string up to 18 bytes, followed by any bytes',
  TESTS + 'A swapped byte order or wrong width for one of 23 scalar types shows only on that type and on values which are not palindromes.',
  [S + 'compiler/decoder.rs', S + 'compiler/encoder.rs', S + 'coder/decode/mod.rs', S + 'coder/encode/mod.rs', S + 'ast/types/scalar.rs'],
  [('primitive read/write instructions', S + 'coder/decode/mod.rs; ' + S + 'compiler/decoder.rs'), ('scalar widths and endianness', S + 'ast/types/scalar.rs')],
  'all scalar types; complete over all values and all inputs of the given length')
p('P05', 'An enum decodes exactly its declared values and encodes each as declared',
  'Decoding an enum succeeds exactly when the scalar read is a declared value (or a default variant exists, which keeps the value) and gives that variant; encoding any variant writes its declared value. Variants without a value continue from the previous one.',
  ['inputs'], 'every byte string of the width of the underlying type plus trailing bytes, every variant and default value, over a family of enum declarations',
  TESTS + 'Unknown discriminants, defaults, implicit values, signed and little-endian representations are not exercised over their range.',
  [S + 'compiler/mod.rs', S + 'semantics/convert/type_/enum_.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs'],
  [('generated from_repr / to_repr', S + 'compiler/mod.rs'), ('implicit enum values', S + 'semantics/convert/type_/enum_.rs')],
  'all inputs for each enum declaration of the family')
p('P06', 'A bitfield carries exactly its declared flags',
  'Decoding a bitfield gives exactly the bits read and rejects bits no flag declares; encoding writes back exactly those bits. The flag accessors report and change exactly the declared bit of each flag, the implicit ones following the previous by one position.',
  ['inputs'], 'every value of the underlying scalar, every combination of flags, over a family of bitfield declarations',
  TESTS + 'One bitfield with one value is tested; accessors are not tested against all bit patterns.',
  [S + 'compiler/mod.rs', S + 'semantics/convert/type_/bitfield.rs'],
  [('generated flag type', S + 'compiler/mod.rs'), ('implicit flag values', S + 'semantics/convert/type_/bitfield.rs')],
  'all inputs for each bitfield declaration of the family')
p('P07', 'Variable-length integers are LEB128, over their full range and nothing more',
  'A variable-length integer of any width is written as the LEB128 of its unsigned bits and read back as the same value, consuming exactly its bytes. A sequence that is truncated or does not fit the type is an error, and no input makes reading panic.',
  ['inputs'], 'every value of v8..v128, every byte string of up to the maximal length plus trailing bytes',
  TESTS + 'The boundary group sizes, negative values and over-long sequences are not sampled.',
  [S + 'prelude/var.rs'], [('decode/encode of variable-length integers', S + 'prelude/var.rs')],
  'all values and all byte strings up to 21 bytes')
p('P08', 'Text decodes exactly the well-formed byte strings and is written back unchanged',
  'UTF-8 and UTF-16 text, with an explicit length or terminated by a zero byte, decodes exactly when the bytes are well-formed and complete, gives exactly the text they encode, and consumes exactly its bytes; writing a text and reading it back gives the same text. A length taken from the input never makes decoding use memory for bytes that are not present.',
  ['inputs'], 'every byte string up to 5-6 bytes, every text of up to 3 bytes / 2 code units, with lengths given by fields, constants and arguments',
  TESTS + 'Only ASCII text is sampled; surrogates, truncation, overlong forms and huge lengths are not.',
  [S + 'prelude/utf8.rs', S + 'prelude/utf16.rs'], [('utf8 codec', S + 'prelude/utf8.rs'), ('utf16 codec', S + 'prelude/utf16.rs')],
  'all inputs within the size bounds')
p('P09', 'A conditional field is on the wire exactly when its condition holds',
  'A field, container or type with a condition is decoded as present exactly when its condition over earlier fields and arguments holds, and takes no bytes otherwise; encoding writes it exactly then. Encoding fails when the condition holds and the value is absent, and ignores a value whose condition does not hold.',
  ['inputs'], 'every byte string up to 3-7 bytes and every value, over a family of specifications with conditions on scalars, bools, flags, enums, optional fields and arguments, nested',
  TESTS + 'Conditions are tested with one value each; the interaction of conditions with containers, aliases and argument-dependent types is not.',
  GEN + [S + 'compiler/expr.rs', S + 'coder/decode/container.rs', S + 'coder/encode/container.rs'],
  [('conditional instructions', S + 'coder/decode/field.rs; ' + S + 'coder/encode/field.rs'), ('condition expressions', S + 'compiler/expr.rs')],
  'all inputs within the size bounds for each specification of the family')
p('P10', 'A tagged enum decodes the first variant whose condition holds, or none',
  'Decoding a tagged enum gives the first variant, in declaration order, whose condition holds (a variant without one always matches), with its content, and is an error if none does; encoding writes the content of the given variant and fails if that is not the variant the conditions select.',
  ['inputs'], 'every byte string up to 4-6 bytes and every variant value, over a family of tagged enums with overlapping conditions, arguments, containers and references',
  TESTS + 'Overlapping conditions, no matching variant and encoding the wrong variant are not tested.',
  [S + 'coder/decode/container.rs', S + 'coder/encode/container.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs'],
  [('enum container coding', S + 'coder/decode/container.rs; ' + S + 'coder/encode/container.rs')],
  'all inputs within the size bounds for each specification of the family')
p('P11', 'Arrays hold exactly the elements their length or terminator says',
  'An array with a length decodes exactly that many elements, a terminated one the elements before its terminator, an unbounded one every element up to the end of its input; encoding writes exactly the elements (and terminator), and a list whose length contradicts the declared length is an error. Truncated or partial elements are errors, a length taken from the input never panics, loops forever or uses memory for elements that are not present.',
  ['inputs'], 'every byte string up to 3-11 bytes, every list of at most 2-3 elements, over arrays of every element kind, nested, with field, argument, constant and computed lengths',
  TESTS + 'Array tests use exact well-formed input; wrong lengths, partial elements, huge lengths and empty arrays are not tested.',
  [S + 'coder/decode/array.rs', S + 'coder/encode/array.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs'],
  [('loops and repeated instructions', S + 'coder/decode/array.rs; ' + S + 'coder/encode/array.rs')],
  'all inputs within the size bounds for each specification of the family')
p('P12', 'Calculated fields are written with the value of their expression',
  'A calculated field is always encoded with the value of its expression over the other fields (lengths, byte lengths of containers, sums, bit counts, arithmetic, constants), whatever the structure holds for it, so that the encoded message is consistent. Decoding returns what is on the wire.',
  ['inputs'], 'every value with collections of at most 2 elements, every byte string up to 3-11 bytes, over a family of specifications',
  TESTS + 'Calculated fields are tested with one value; multi-byte elements, several and nested byte lengths, and conditional calculated fields are not.',
  [S + 'coder/encode/field.rs', S + 'coder/encode/container.rs', S + 'compiler/encoder.rs', S + 'prelude/len.rs', S + 'prelude/blen.rs'],
  [('calculated values and back-patched lengths', S + 'coder/encode/container.rs; ' + S + 'compiler/encoder.rs'), ('length functions', S + 'prelude/')],
  'all inputs within the size bounds for each specification of the family')
p('P13', 'A length-constrained container reads its declared bytes and nothing else',
  'The content of a container with a length is decoded from exactly that many bytes: unbounded content ends there, content needing more is an error, and whatever follows the container is decoded from the byte after it. Encoding a value and decoding it with the length it was written with gives the value back.',
  ['inputs'], 'every byte string up to 4-11 bytes and every value with collections of at most 2 elements, over a family of specifications',
  TESTS + 'Content that would read past its container, lengths beyond the input and nested containers are not tested.',
  [S + 'coder/decode/container.rs', S + 'coder/encode/container.rs', S + 'compiler/decoder.rs', S + 'compiler/encoder.rs'],
  [('constrained streams', S + 'coder/decode/container.rs; ' + S + 'compiler/decoder.rs')],
  'all inputs within the size bounds; content shorter than its container is outside the claim')

exec(open(os.path.join(V, 'tools/more.py')).read()) if os.path.exists(os.path.join(V, 'tools/more.py')) else None

NA = []
TECH = 'symbolic execution of the LLVM IR of the generated codec (from the real compiler) against an independent reference codec, decided by z3; counterexamples replayed natively'
TECHFE = 'symbolic execution of the LLVM IR of the real compiler front end, decided by z3; counterexamples replayed natively'


def main():
    props, checks = [], []
    for q in sorted(P + NA_P, key=lambda q: q['id']):
        have = os.path.exists(os.path.join(V, 'checks/%s.py' % q['id'].lower()))
        na = q.get('na')
        if not have and not na:
            continue
        props.append({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']},
                      'why_tests_cant': q['why'], 'anchors': {'files': q['files'], 'mechanism': [{'name': a, 'where': b} for a, b in q['mech']]}})
        if na:
            NA.append({'property': q['id'], 'reason': na})
            continue
        checks.append({'property': q['id'], 'quick_cmd': 'python3 check.py %s' % q['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % q['id'],
                       'technique': TECHFE if q['fe'] else TECH, 'level': 'model_checking' if q['fe'] else 'translation_validation',
                       'level_note': 'Bounded, complete within its bounds: ' + q['note'] + '. Trusts rustc/LLVM lowering, the engine rsym, z3 and the reference; sampled paths are replayed natively and compared.'})
    for q in props:
        assert len(q['title']) <= 80, q['title']
        for f in q['anchors']['files']:
            assert os.path.exists('/repo/' + f), f
    t = ''
    for q in sorted(P + NA_P, key=lambda q: q['id']):
        if q['id'] not in [x['id'] for x in props]:
            continue
        t += '### %s %s\n\n%s\n\n' % (q['id'], q['title'], q['statement'])
        if q.get('na'):
            t += 'Not applicable: %s\n\n' % q['na']
            continue
        doc = importlib.machinery.SourceFileLoader('c', os.path.join(V, 'checks/%s.py' % q['id'].lower())).load_module().__doc__
        t += 'Decided by `checks/%s.py` (%s). Quantified over %s. Why the tests cannot: %s Anchors: %s. %s\n\n' % (
            q['id'].lower(), 'front-end harnesses' if q['fe'] else '`dec`/`enc` templates on generated code', q['text'], q['why'], '; '.join('`%s`' % b for a, b in q['mech']), (doc or '').strip())
    sd = '| change | property | needs | caught by |\n|---|---|---|---|\n'
    res = json.load(open(os.path.join(V, 'tools/caught.json')))
    for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
        m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
        sd += '| %s: %s | %s | %s | %s |\n' % (d, m['what_it_breaks'], m['property'], m['needs'], ', '.join(res.get(d, [])) or 'missed')
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write(open(os.path.join(V, 'tools/design.md')).read().replace('@TABLE@', t.strip()).replace('@SEEDS@', sd.strip()))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in props:
            f.write(json.dumps(q) + '\n')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': NA,
                   'notes': 'No hooks in /repo: the checks use public items and generated code only.'}, f, indent=1)
        f.write('\n')


NA_P = globals().get('NA_P', [])
main()
