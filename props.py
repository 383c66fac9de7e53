# What each check explores: harness, the repository sources linked into the encoding, bounds.
COMMON_ASSUMPTIONS = [
 'clang 18 -O1 IR of the current /repo sources (asserts on) stands for the code; every counterexample and a sample of passing paths are replayed on a g++ ASAN build of the same sources',
 'malloc/new never fail; distinct objects are never adjacent; libc string/ctype/qsort routines and the std::map tree primitives are replaced by models in /verif/rt',
]
def u(name, harness, srcs, bounds, reach=(), q=None, t=None, **kw):
    d = dict(name=name, harness=harness, srcs=srcs, defs={'quick': q or {}, 'thorough': t if t is not None else (q or {})}, bounds=bounds, reach=list(reach))
    d.update(kw)
    return d
CE = ['src/char_encoding.cpp']
CHECKS = {}
def C(pid, units, assumptions=()):
    CHECKS[pid] = {'units': units, 'assumptions': list(assumptions)}

C('U01', [u('roundtrip', 'u_roundtrip.cpp', CE, 'every pair of 32-bit character values; no loop is cut', ['two', 'six', 'illegal'])])
C('U02', [u('decode', 'u_decode.cpp', CE, {'quick': 'every NUL-terminated buffer of 1..5 non-NUL bytes', 'thorough': 'every NUL-terminated buffer of 1..7 non-NUL bytes'}, ['illegal', 'len4'], {'FORWARD': 1, 'N': 5}, {'FORWARD': 1, 'N': 7})])
C('U03', [u('backup', 'u_decode.cpp', CE, {'quick': 'every NUL-terminated buffer of 1..5 non-NUL bytes', 'thorough': 'every NUL-terminated buffer of 1..7 non-NUL bytes'}, ['back', 'len4'], {'BACKWARD': 1, 'N': 5}, {'BACKWARD': 1, 'N': 7}),
          u('stray', 'u_decode.cpp', CE, {'quick': 'every two non-NUL bytes followed by 0..8 trailing bytes', 'thorough': 'by 0..14'}, ['back', 'len4'], {'BACKWARD': 1, 'STRAY': 1, 'N': 10}, {'BACKWARD': 1, 'STRAY': 1, 'N': 16})])
C('U04', [u('utf16', 'u_utf16.cpp', CE, 'every pair of Unicode scalar values, both byte orders; predicates over every 16-bit unit', ['pair'])])
C('U05', [u('upper', 'u_class.cpp', CE, 'every 32-bit value after one arbitrary earlier call', ['conv'], {'PART': 1}),
          u('lower', 'u_class.cpp', CE, 'every 32-bit value after one arbitrary earlier call', ['conv'], {'PART': 2}),
          u('digit', 'u_class.cpp', CE, 'every 32-bit value after one arbitrary earlier call', ['digit'], {'PART': 3}),
          u('title', 'u_class.cpp', CE, 'every 32-bit value', ['digraph'], {'PART': 4}),
          u('alpha', 'u_class.cpp', CE, 'every 32-bit value', ['nocase', 'not'], {'PART': 5}, args=['--fork-select'])])
SV = ['src/char_encoding.cpp', 'src/variant.cpp']
ALL_S = '0,1,2,3,4,5,6,7,8,9,10'
def q(*pats): return ','.join('"%s"' % p for p in pats)
C('S01', [u('edit1', 's_edit.cpp', SV, 'any one operation at every position, after building by copying or slicing; 9 characters of 1-4 bytes and a lone continuation byte, all symbolic within their byte length', ['end'], {'SV_K': 1, 'SV_NV': 3, 'ALLPOS': 1, 'OPS': ALL_S, 'PATS': q('213141215')}),
  u('edit2', 's_edit.cpp', SV, 'any two operations (all 11 kinds) at positions 0, 1, 4, middle, last, end', ['end'], {'SV_K': 2, 'SV_NV': 2, 'OPS': ALL_S, 'PATS': q('213141215')}, {'SV_K': 2, 'SV_NV': 3, 'OPS': ALL_S, 'PATS': q('213141215', '11111111111', '4444422222')}),
  u('edit3', 's_edit.cpp', SV, 'any three operations of: assign, substr, insert, +=, += character, asUTF8; positions 0, middle, end', ['end'], {'SV_K': 3, 'SV_NV': 2, 'POS3': 1, 'OPS': '0,1,2,3,5,6', 'PATS': q('213141215')}),
  u('edit4', 's_edit.cpp', SV, 'any four operations of: substr, insert, += character', ['end'], {'SV_K': 4, 'SV_NV': 2, 'POS3': 1, 'OPS': '1,2,5', 'PATS': q('213141215')}, thorough_only=True),
  u('pair', 's_pair.cpp', SV, 'every pair of slices of one body (all ranges), then +, +=, insert at every position, prepend or append, with the original kept or dropped', ['end'], {'PATS': q('12131', '1111111')}, {'PATS': q('12131', '1111111', '2141312', '31'), })])
C('S02', [u('find', 's_find.cpp', SV, 'eight search functions, every start position; haystacks of 0..6 characters (whole, inner slice, suffix), needles of 0..3', ['found', 'absent'],
   {'HAY': q('111111', '21312', '4'), 'NEEDLE': q('', '1', '2', '11', '13', '3', '111')},
   {'HAY': q('1111111', '213142', '152535', '4', '22222'), 'NEEDLE': q('', '1', '2', '11', '13', '3', '111', '4', '5', '15', '222')})])
C('S03', [u('compare', 's_cmp.cpp', SV, 'every pair of texts from the layouts, whole or sliced', ['equal', 'less'], {'PATS': q('', '1', '11', '12', '21', '3', '111')}, {'PATS': q('', '1', '11', '12', '21', '3', '4', '5', '111', '1111', '131')}),
  u('slices', 's_pair.cpp', SV, 'every pair of slices of one body (all ranges)', ['equal'], {'COMPARE': 1, 'PATS': q('1111', '1213')}, {'COMPARE': 1, 'PATS': q('11111', '12131', '1515', '33')})])
C('S04', [u('short', 's_int.cpp', SV, 'every text of 0..3 ASCII characters plus layouts with 2- and 3-byte characters; radix 0, 2, 8, 10, 16, 36, -1, 37', ['ok', 'trail'], {'PATS': q('', '1', '11', '111', '12', '31'), 'RADICES': '0,2,8,10,16,36,-1,37'}, {'PATS': q('', '1', '11', '111', '1111', '12', '31', '131'), 'RADICES': '0,2,3,8,10,11,16,35,36,-1,37'}),
  u('hex', 's_int.cpp', SV, '"-0x" followed by 3 ASCII characters, same radices', ['ok'], {'PREFIX': '"-0x"', 'PATS': q('11', '111'), 'RADICES': '0,2,16,36'}),
  u('dec', 's_int.cpp', SV, 'optional sign, one of eight leading groups at the overflow boundaries (2147483, 4294967, 6442450, 9999999, 922337203685477, 1844674407370955, 000, none), then every 4 decimal digits', ['ok', 'overflow'], {'DIGITS': 4, 'RADIXV': 10, 'LEAD': q('', '214748', '429496', '644245', '858993', '999999', '922337203685477', '1844674407370955', '000')}),
  u('dec6', 's_int.cpp', SV, 'as dec with every 6 trailing digits', ['ok', 'overflow'], {'DIGITS': 6, 'RADIXV': 10, 'LEAD': q('', '2147', '4294', '0')}, thorough_only=True),
  u('hex4', 's_int.cpp', SV, 'optional sign, a leading group at the overflow boundaries, every 4 hexadecimal digits', ['ok', 'overflow'], {'DIGITS': 4, 'RADIXV': 16, 'LEAD': q('7FFF', '8000', 'FFFF', '00')}),
  u('hex8', 's_int.cpp', SV, 'optional sign, every 8-digit hexadecimal number', ['ok', 'overflow'], {'DIGITS': 8, 'RADIXV': 16}, thorough_only=True),
  u('bin33', 's_int.cpp', SV, 'every 33-digit binary number with optional sign', ['ok', 'overflow'], {'DIGITS': 33, 'RADIXV': 2}, thorough_only=True)])
C('S06', [u('case', 's_case.cpp', SV, 'every slice of texts of up to 4 characters (ASCII, every 2-byte character, width-changing characters, illegal bytes), shared or not, converted in place or copied', ['end'], {'PATS': q('2', '61', '157', '767')}, {'PATS': q('2', '3', '12', '66', '161', '7577', '7677')}),
  u('transform', 's_case.cpp', SV, 'transform() after every position, with every consume count 0-2 and replacement of four, over every slice of 4 characters', ['end'], {'TRANSFORM': 1, 'PATS': q('7272')}, {'TRANSFORM': 1, 'PATS': q('7272', '43717')}),
  u('room', 's_case.cpp', SV, 'transform() adding 0-9 characters before or within texts of 0-15 ASCII characters followed by 1-3 characters of 4 bytes, so that storage fills at every place', ['end'], {'ROOM': 16})])
C('S05', [u('json', 's_json.cpp', SV, 'every slice of every text of the layouts: characters of 1-4 bytes all symbolic, and illegal bytes; shared or not', ['pair', 'illegal', 'end'], {'PATS': q('1', '3', '4', '11', '124', '51', '181', '1112')}, {'PATS': q('1', '3', '4', '11', '44', '111', '124', '151', '181', '1112', '2131', '11111')})])
C('S07', [u('build', 's_build.cpp', SV, 'joins of 0..3 strings (whole, inner slices, or slices that may continue each other), repeats of 0..3, seven ways to add literals and characters, six operations on arrays of strings', ['end', 'join', 'repeat', 'literal', 'array'], {'PATS': q('', '2131', '11'), 'JOINS': q('', '1', '31')}, {'PATS': q('', '1', '2131', '11', '41'), 'JOINS': q('', '1', '31', '2')}),
  u('format', 's_build.cpp', SV, {'quick': 'formats of up to 3 parts (symbolic text of 1 and 3 bytes, parameters in sequence or numbered, %s or %d), a final %; two parameters, strings or numbers', 'thorough': 'up to 4 parts'}, ['end'], {'FMT': 1, 'PARTS': 3, 'PATS': q('', '2131'), 'JOINS': q('')}, {'FMT': 1, 'PARTS': 4, 'PATS': q('', '2131', '11'), 'JOINS': q('')})])
C('S08', [u('read', 's_read.cpp', SV, 'six ways to build each text of the layouts; every slice, and every slice, head and tail of the slice', ['end'], {'PATS': q('', '1', '5', '2131', '18', '11111', '45211')}, {'PATS': q('', '1', '2', '3', '4', '5', '2131', '181', '1111111', '4521134', '222222')}),
  u('statics', 's_static.cpp', SV, 'any two of four operations on each of four static strings, static objects made in the order that favours the library', ['end']),
  u('statics2', 's_static.cpp', SV, 'the same, the library\'s own static objects made last', ['end'], args=['--late-ctors']),
  u('joins', 's_join.cpp', SV, {'quick': 'two pieces of up to 2 and 2 arbitrary bytes put together in eight ways, or a character of one taken out', 'thorough': 'pieces of up to 3 and 2 bytes'}, ['end'], {'NA': 2, 'NB': 2}, {'NA': 3, 'NB': 2}),
  u('raw', 's_read.cpp', SV, 'every raw binary text of up to 3 bytes and its slices', ['end'], {'RAW': 3}, {'RAW': 4})])
C('E01', [u('errnum', 'e_err.cpp', [], 'every pair of 16-bit set and 14-bit message numbers and every 32-bit code; five assignment histories of Error', ['big'])])
ALL_A = ','.join(map(str, range(18)))
C('A01', [u('edit1', 'a_edit.cpp', [], 'any one of 18 operations at every position, from five starting points (copy, lone inner slice, shared suffix, static data, single element) over two arrays of up to 5 elements', ['end'], {'SV_K': 1, 'ALLPOS': 1, 'OPS': ALL_A}),
  u('edit2', 'a_edit.cpp', [], 'any two of 18 operations at both ends, next to the end and the middle', ['end'], {'SV_K': 2, 'OPS': ALL_A}),
  u('edit3', 'a_edit.cpp', [], 'any three of: assign, slice, insert, +=, push, remove, set', ['end'], {'SV_K': 3, 'OPS': '0,1,2,3,5,7,9'}, thorough_only=True),
  u('grow', 'a_edit.cpp', [], {'quick': 'any one of insert, +=, +, push, + element, unshift, set on arrays of 1, 7, 8, 9, 16, 17, 21, 25, 34 elements built at once or grown, shared or not', 'thorough': 'any two of them'}, ['end'], {'SV_K': 1, 'ALLPOS': 1, 'OPS': '2,3,4,5,6,9,11', 'SIZES': '1,7,8,9,16,17,21,25,34'}, {'SV_K': 2, 'OPS': '2,3,4,5,6,9,11', 'SIZES': '1,7,8,9,16,17,21,25,34'}),
  u('refs', 'a_edit.cpp', [], 'as edit2 with reference-counted elements', ['end'], {'SV_K': 2, 'REFS': 1, 'OPS': ALL_A})])
C('A02', [u('search', 'a_search.cpp', [], {'quick': 'arrays of 0-4 symbolic 32-bit elements (whole, inner slice, reduced), every search position, every condition on the low 5 bits', 'thorough': 'as quick with 0-5 elements'}, ['found', 'empty'], {'LEN': 4}, {'LEN': 5}),
  u('bsearch', 'a_search.cpp', [], {'quick': 'every sorted array of 0-8 32-bit elements, every key', 'thorough': 'every sorted array of 0-12 elements'}, ['found', 'absent'], {'BSEARCH': 1, 'LEN': 8}, {'BSEARCH': 1, 'LEN': 12}),
  u('compare', 'a_search.cpp', [], {'quick': 'every pair of arrays of 0-4 32-bit elements', 'thorough': 'every pair of arrays of 0-6 elements'}, ['equal'], {'COMPARE': 1, 'LEN': 4}, {'COMPARE': 1, 'LEN': 6})])
ALL_M = '0,1,2,3,4,5,6,7'
C('M01', [u('one', 'm_map.cpp', SV, 'any one of 8 operations on two maps, shared or not, of 0-3 symbolic keys and values (16 distinct keys: every order and equality pattern)', ['end', 'found'], {'SV_K': 1, 'SIZES': '0,1,2,3', 'OPS': ALL_M}),
  u('two', 'm_map.cpp', SV, 'any two operations on two maps of 0-2 symbolic keys', ['end', 'found'], {'SV_K': 2, 'SIZES': '0,2', 'OPS': ALL_M}),
  u('three', 'm_map.cpp', SV, 'any three of: assign, put, insert, remove on two maps of 1-2 symbolic keys', ['end'], {'SV_K': 3, 'SIZES': '1,2', 'OPS': '0,1,2,3'}, thorough_only=True),
  u('strings', 'm_map.cpp', SV, 'any one operation on maps of 0-2 string keys of 1-2 characters', ['end', 'found'], {'SV_K': 1, 'SIZES': '0,2', 'STRKEYS': 1, 'OPS': ALL_M}, {'SV_K': 2, 'SIZES': '0,2', 'STRKEYS': 1, 'OPS': ALL_M})])
T = lambda *t: ','.join('"%s"' % x for x in t)
C('P01', [u('trees', 'p_match.cpp', SV, {'quick': 'every pattern tree of up to 4 nodes over literal . ? * + & ! () | with every literal symbolic, on every ASCII text of 0-3 characters, search and match_here', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed'], {'NODES': 4, 'KINDS': '"L.?*+&!(|"', 'TEXTS': T('', '1', '11', '111')}, {'NODES': 5, 'KINDS': '"L.?*+&!(|"', 'TEXTS': T('', '1', '11', '111')}),
 u('atoms', 'p_match.cpp', SV, {'quick': 'every pattern tree of up to 3 nodes over literal . ^ $ class, negated class, escaped operator ? * & ! () |; texts of 0-1 characters of 1-2 bytes, with newlines', 'thorough': 'as quick with up to 4 nodes'}, ['matched', 'failed'], {'NODES': 3, 'KINDS': '"L.^$[NK?*&!(|"', 'TEXTS': T('', '1', '2', '1n', 'n1')}, {'NODES': 4, 'KINDS': '"L.^$[NK?*&!(|"', 'TEXTS': T('', '1', '2', '1n', 'n1')}),
 u('props', 'p_match.cpp', SV, {'quick': 'up to 2 nodes over literal, the seven property escapes, * !; every ASCII text of 0-2 characters', 'thorough': 'up to 3 nodes, texts of 0-3 characters'}, ['matched', 'failed'], {'NODES': 2, 'KINDS': '"LE*!"', 'TEXTS': T('', '1', '11')}, {'NODES': 3, 'KINDS': '"LE*!"', 'TEXTS': T('', '1', '11', '111')}),
 u('wide', 'p_match.cpp', SV, 'one atom (literal . property class negated class) against every character of 2 and 3 bytes', ['matched', 'failed'], {'NODES': 1, 'KINDS': '"L.E[N"', 'TEXTS': T('2', '3')}),
 u('captures', 'p_match.cpp', SV, {'quick': 'every tree of up to 5 nodes over literal ? * + & ! () | and labels, every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 6 nodes'}, ['matched', 'failed', 'captured'], {'NODES': 5, 'KINDS': '"L?*+&!(|:"', 'TEXTS': T('', '1', '11')}, {'NODES': 6, 'KINDS': '"L?*+&!(|:"', 'TEXTS': T('', '1', '11')}),
 ])
C('P02', [u('escapes', 'p_class.cpp', SV, 'every escape of the documented forms (octal of 1-3 digits, \\x and \\u of every digit count, braced, control letters) with symbolic digits, against every character of 1-3 bytes, alone and followed by another atom or under an operator', ['matched', 'failed'], {'WIDTHS': 3}),
 u('class1', 'p_class.cpp', SV, 'every class of one part (literal, range, property, escape), negated or not, against every character of 1-3 bytes', ['matched', 'failed'], {'WIDTHS': 3, 'CLASSES': 1}),
 u('class2', 'p_class.cpp', SV, 'every class of two parts, negated or not, against every ASCII character', ['matched', 'failed'], {'WIDTHS': 1, 'CLASSES': 2, 'CTXS': '0,2,5'}, thorough_only=True),
 ])
C('P03', [u('any', 'p_any.cpp', SV, {'quick': 'every pattern of 5 non-NUL bytes on every ASCII text of one character', 'thorough': 'every pattern of 6 non-NUL bytes on every ASCII text of one character'}, ['matched', 'failed'], {'PLEN': 5, 'TLEN': 1, 'LEAD': '""', 'ASCII': 1}, {'PLEN': 6, 'TLEN': 1, 'LEAD': '""', 'ASCII': 1}),
 u('any4', 'p_any.cpp', SV, {'quick': 'every pattern of 4 non-NUL bytes on every ASCII text of 2 characters', 'thorough': 'every pattern of 5 non-NUL bytes on every ASCII text of 2 characters'}, ['matched', 'failed'], {'PLEN': 4, 'TLEN': 2, 'LEAD': '""', 'ASCII': 1}, {'PLEN': 5, 'TLEN': 2, 'LEAD': '""', 'ASCII': 1}),
 u('bytes', 'p_any.cpp', SV, {'quick': 'every pattern of 2 non-NUL bytes on every text of 2 non-NUL bytes', 'thorough': 'every pattern of 3 non-NUL bytes on every text of 2 non-NUL bytes'}, ['matched', 'failed'], {'PLEN': 2, 'TLEN': 2, 'LEAD': '""', 'ASCII': 0}, {'PLEN': 3, 'TLEN': 2, 'LEAD': '""', 'ASCII': 0}),
 u('class', 'p_any.cpp', SV, {'quick': '"[" and every 4 more bytes, every ASCII text of one character', 'thorough': '"[" and every 5 more bytes'}, ['matched', 'failed'], {'PLEN': 5, 'TLEN': 1, 'LEAD': '"["', 'ASCII': 1}, {'PLEN': 6, 'TLEN': 1, 'LEAD': '"["', 'ASCII': 1}),
 u('esc', 'p_any.cpp', SV, {'quick': '"\\\\u{" and every 3 more bytes, every ASCII text of one character', 'thorough': '"\\\\u{" and every 4 more bytes'}, ['failed'], {'PLEN': 6, 'TLEN': 1, 'LEAD': '"\\\\u{"', 'ASCII': 1}, {'PLEN': 7, 'TLEN': 1, 'LEAD': '"\\\\u{"', 'ASCII': 1}),
 ])
RI = lambda *r: ','.join('P::Rule(ruleName[%d], P::PegexpT(pat + ruleAt[%d]))' % (i, i) for i in range(len(r)))
def RR(*r): return {'PEG': 1, 'RULES': T(*r), 'RULEINIT': RI(*r)}
C('P04', [u('two', 'p_match.cpp', SV, {'quick': 'every grammar of two rules with together up to 4 nodes over literal . call ? * + & ! () |, calls of undefined rules too; every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed', 'left recursion'], dict(RR('TOP', 'a'), NODES=4, KINDS='"L.<?*+&!(|"', UNDEF=1, TEXTS=T('', '1', '11')), dict(RR('TOP', 'a'), NODES=5, KINDS='"L.<?*+&!(|"', UNDEF=1, TEXTS=T('', '1', '11'))),
 u('three', 'p_match.cpp', SV, {'quick': 'every grammar of three rules (one name the start of another) with together up to 5 nodes over literal call * |; every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 6 nodes'}, ['matched', 'failed', 'left recursion'], dict(RR('TOP', 'ab', 'a'), NODES=5, KINDS='"L<*|"', UNDEF=0, TEXTS=T('', '1', '11')), dict(RR('TOP', 'ab', 'a'), NODES=6, KINDS='"L<*|"', UNDEF=0, TEXTS=T('', '1', '11'))),
 u('lookup', 'p_lookup.cpp', SV, 'three rules with names of 1-2 symbolic name characters, and every name looked up of 1-2 characters', ['found', 'absent'], dict(NR=3, RULEINIT=','.join('P::Rule(nm[%d], P::PegexpT(""))' % i for i in range(3)))),
 u('names', 'p_lookup.cpp', SV, 'as lookup, every name starting with the same 20 characters', ['found', 'absent'], dict(NR=3, PRE='"abcdefghijABCDEFGHIJ"', RULEINIT=','.join('P::Rule(nm[%d], P::PegexpT(""))' % i for i in range(3)))),
 ])
C('P05', [u('tree', 'p_ast.cpp', SV, {'quick': '15 grammars (captures of atoms, rules, nested rules, repetitions, alternatives, look-ahead), every ASCII text of 0-3 characters', 'thorough': 'as quick, texts of 0-5 characters'}, ['captured', 'failed'], {'TLEN': 3}, {'TLEN': 5})])
C('P06', [u('report', 'p_fail.cpp', SV, {'quick': '24 grammars (literals, classes, nested and recursive rules, repetitions, alternatives, look-ahead), every ASCII text of 0-6 characters', 'thorough': 'as quick, texts of 0-12 characters'}, ['nested', 'several', 'passed', 'failed'], {'TLEN': 6}, {'TLEN': 12})])
PS = lambda kind, n, k, **d: dict(KIND=kind, TLEN=n, SV_K=k, **d)
C('P07', [u('chars', 'p_src.cpp', SV, {'quick': 'any four of: take a byte, take a character, copy, take from a copy, on two sources over every text of 0-3 bytes', 'thorough': 'any five, 0-4 bytes'}, ['end', 'wide'], PS(0, 3, 4), PS(0, 4, 5)),
 u('bytes', 'p_src.cpp', SV, {'quick': 'the same, a source of single-byte characters', 'thorough': 'any five, 0-4 bytes'}, ['end'], PS(1, 3, 4), PS(1, 4, 5)),
 u('memory', 'p_src.cpp', SV, {'quick': 'the same, the source of a PEG parse', 'thorough': 'any five, 0-4 bytes'}, ['end', 'wide'], PS(2, 3, 4), PS(2, 4, 5)),
 u('matches', 'p_src.cpp', SV, {'quick': 'the start and end of a match of nine patterns in every text of 0-4 bytes', 'thorough': 'texts of 0-5 bytes'}, ['matched'], PS(0, 4, 0, PEG=1), PS(0, 5, 0, PEG=1)),
 u('mmatches', 'p_src.cpp', SV, {'quick': 'the same, the source of a PEG parse', 'thorough': 'texts of 0-5 bytes'}, ['matched'], PS(2, 4, 0, PEG=1), PS(2, 5, 0, PEG=1))])
C('V01', [u('values', 'v_value.cpp', SV, {'quick': 'any two of: assign, renew from a value of any kind, copy, write through a number accessor, change what an accessor returned, << ; over variants of all 8 kinds, by each constructor, contents symbolic (numbers of full width, strings of 0-2 characters, arrays and maps of 0-2 entries)', 'thorough': 'as quick, any three operations'}, ['end'], {'SV_K': 2, 'OPS': '0,1,2,3,4,5'}, {'SV_K': 3, 'OPS': '0,1,2,3,4,5'}),
 u('coerce', 'v_value.cpp', SV, 'every pair of kinds; numbers of full width between number kinds; to and from text: optional sign, one of three leading groups (none, at the 32-bit and at the 64-bit boundary), up to 3 more digits (thorough: 4), with and without trailing text', ['coerced', 'refused'], {'COERCE': 1, 'SV_K': 1, 'OPS': '0', 'DIGITS': 3, 'LEADS': T('', '2147483', '9223372036854775')}, {'COERCE': 1, 'SV_K': 1, 'OPS': '0', 'DIGITS': 4, 'LEADS': T('', '214748', '922337203685477')})])
C('V02', [u('json', 'v_json.cpp', SV, {'quick': 'every variant of up to two levels and 3 elements: null, numbers of up to 3 digits and the extremes of each type, strings of 0-2 ASCII characters of which one is any, arrays, maps with symbolic keys; indent -2, -1, 0, 1', 'thorough': 'up to three levels and 4 elements; indent 3 too'}, ['end', 'filled'], {'DEPTH': 2, 'NODES': 3, 'MODES': '-2,-1,0,1'}, {'DEPTH': 3, 'NODES': 4, 'MODES': '-2,-1,0,1,3'})])
RX = ['rx/rxcompile.cpp', 'rx/rxmatch.cpp', 'src/char_encoding.cpp', 'src/variant.cpp']
XT = lambda **k: dict(dict(WIDE=0, TLEN=2), **k)
C('X01', [u('trees', 'x_match.cpp', RX, {'quick': 'every expression of up to 4 nodes over literal . ? * + six counts {n,m} ( ) |, literals symbolic; every ASCII text of 0-2 characters, from every offset, matchAt and matchAfter', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed'], XT(NODES=4, KINDS='"L.?*+{(|"'), XT(NODES=5, KINDS='"L.?*+{(|"')),
 u('atoms', 'x_match.cpp', RX, {'quick': 'up to 2 nodes over literal . ^ $ class, negated class, \\s \\d \\h, escaped operators, * ( ) |; every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 3 nodes'}, ['matched', 'failed'], XT(NODES=2, KINDS='"L.^$[NPK*(|"'), XT(NODES=3, KINDS='"L.^$[NPK*(|"')),
 u('lines', 'x_match.cpp', RX, {'quick': 'up to 4 nodes over literal ^ $ * |; every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed'], XT(NODES=4, KINDS='"L^$*|"'), XT(NODES=5, KINDS='"L^$*|"')),
 u('wide', 'x_match.cpp', RX, 'up to 2 nodes over literal . class, negated class, property, *; every text of 0-2 characters of 1-3 bytes', ['matched', 'failed'], {'NODES': 2, 'KINDS': '"L.[NP*"', 'TLEN': 2, 'WIDE': 1}),
 u('look', 'x_match.cpp', RX, {'quick': 'up to 4 nodes over literal ^ $ * | and negative lookahead; every ASCII text of 0-2 characters', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed', 'lookahead'], XT(NODES=4, KINDS='"L^$*!|"'), XT(NODES=5, KINDS='"L^$*!|"')),
 u('counts', 'x_match.cpp', RX, {'quick': 'up to 4 nodes over literal ^ ? ( ) | and counts {2} {,2} {2,}; every ASCII text of 0-3 characters', 'thorough': 'as quick with up to 5 nodes'}, ['matched', 'failed'], XT(NODES=4, TLEN=3, KINDS='"L^?{(|"', COUNTS='{2,2,"{2}"},{0,2,"{,2}"},{2,0,"{2,}"}'), XT(NODES=5, KINDS='"L^?{(|"', TLEN=3, COUNTS='{2,2,"{2}"},{0,2,"{,2}"},{2,0,"{2,}"}')),
 u('atom', 'x_atom.cpp', RX, {'quick': 'every escape of every form with symbolic digits, every literal, \\s \\d \\h, classes of one literal, range or escaped part with - or ] at the edge, negated or not; against every character of 1-3 bytes; alone, between literals, followed by +, and in the extended syntax', 'thorough': 'classes of two parts, characters of up to 4 bytes'}, ['matched', 'failed'], {'PARTS': 1}, {'PARTS': 2, 'WIDTHS': 4}),
 u('features', 'x_atom.cpp', RX, 'each feature disabled (taken literally) or rejected, and all others rejected', ['matched', 'failed', 'rejected'], {'FEATURES': 1}),
 u('repeats', 'x_count.cpp', RX, {'quick': 'counts {n} {n,} {n,m} with n of 0, 2, 127, 254 and m up to 254 away by 0, 1, 2, 50, 126-128, 254; a plain symbolic character repeated as often as each boundary of the count, one less and one more', 'thorough': 'n of 0, 1, 2, 9, 126-128, 254; also in a named group and an alternative'}, ['matched', 'failed'], {'FORMS': 1, 'MINS': '0,1,2,127,254'}, {'FORMS': 3}, max_steps=60000000),
 u('long', 'x_long.cpp', RX, 'sixteen forms of expression (repeated, optional, counted, alternatives, lookahead, long names, 26-34 alternatives, named groups, classes, counted items, or lookaheads) of the sizes where an offset in the program grows from one byte to two', ['matched', 'failed'], {'KLO': 26, 'KHI': 34, 'PADS': '0'}, {'KLO': 2, 'KHI': 70, 'PADS': '0'}, max_steps=60000000),
 u('long3', 'x_long.cpp', RX, 'the same within a program that needs three-byte offsets', ['matched', 'failed'], {'KLO': 28, 'KHI': 32, 'PADS': '560'}, {'KLO': 20, 'KHI': 40, 'PADS': '530,560'}, max_steps=60000000),
])
XA = lambda n, lead='', **k: dict(dict(PLEN=n, TLEN=1, ASCII=1, LEAD='"%s"' % lead), **k)
ALLR = ['compiled', 'refused', 'matched']
FX = ['rx/rxcompile.cpp', 'rx/rxdump.cpp', 'src/char_encoding.cpp', 'src/variant.cpp']
C('X02', [u('any', 'x_any.cpp', RX, {'quick': 'every expression of 4 ASCII characters, every ASCII text of one', 'thorough': 'every expression of 5'}, ALLR, XA(4), XA(5)),
 u('group', 'x_any.cpp', RX, {'quick': '"(?" and every 4 more', 'thorough': '"(?" and every 5 more'}, ALLR, XA(4, '(?'), XA(5, '(?')),
 u('named', 'x_any.cpp', RX, {'quick': '"(?<x>" and every 3 more', 'thorough': '"(?<x>" and every 4 more'}, ALLR, XA(3, '(?<x>'), XA(4, '(?<x>')),
 u('count', 'x_any.cpp', RX, {'quick': '"a{" and every 3 more', 'thorough': '"a{1" and every 3 more'}, ALLR, XA(3, 'a{'), XA(3, 'a{1')),
 u('class', 'x_any.cpp', RX, {'quick': '"[" and every 4 more', 'thorough': '"[" and every 5 more'}, ALLR, XA(4, '['), XA(5, '[')),
 u('esc', 'x_any.cpp', RX, {'quick': 'a backslash and every 3 more', 'thorough': 'a backslash and every 4 more'}, ALLR, XA(3, '\\\\'), XA(4, '\\\\')),
 u('prop', 'x_any.cpp', RX, {'quick': '"\\\\p" and every 3 more, and ended by }', 'thorough': '"\\\\p" and every 4 more, and ended by }'}, ['compiled', 'refused'], XA(3, '\\\\p', TAIL='"}"'), XA(4, '\\\\p', TAIL='"}"')),
 u('bytes', 'x_any.cpp', RX, 'every expression of 2 non-NUL bytes on every text of 2 non-NUL bytes', ALLR, XA(2, TLEN=2, ASCII=0)),
 u('classbytes', 'x_any.cpp', RX, {'quick': '"[" with 3 non-NUL bytes, on every text of a non-NUL byte', 'thorough': 'with 4, on no text'}, ['compiled', 'refused'], XA(3, '[', TLEN=1, ASCII=0), XA(4, '[', TLEN=0, ASCII=0)),
 u('bytes3', 'x_any.cpp', RX, {'quick': 'every expression of 3 non-NUL bytes on no text, also in the extended syntax', 'thorough': 'every expression of 4'}, ['compiled', 'refused'], XA(3, TLEN=0, ASCII=0, MODES=2), XA(4, TLEN=0, ASCII=0, MODES=2)),
 u('long', 'x_form.cpp', FX, '1, 9, 17 or 25 classes or named groups of 1, 2, 126-130 or 254-258 bytes', ['compiled', 'captures'], {'MANY': 4, 'PADS': '1,2,126,127,128,129,130,254,255,256,257,258'}, max_steps=60000000),
 u('modes', 'x_any.cpp', RX, {'quick': 'every expression of 2 ASCII characters with the extended syntax, with no feature enabled, and with each one rejected', 'thorough': 'every expression of 3'}, ALLR, XA(2, MODES=23), XA(3, MODES=23)),
])
C('X03', [u('captures', 'x_match.cpp', RX, {'quick': 'every expression of up to 4 nodes with a named group, over literal ? * | and named groups; every ASCII text of 0-2 characters', 'thorough': 'up to 5 nodes'}, ['matched', 'failed'], XT(NODES=4, KINDS='"L?*<|"', NAMED=1), XT(NODES=5, KINDS='"L?*<|"', NAMED=1)),
 u('results', 'x_result.cpp', RX, {'quick': 'any three of copy, captureSet, counterPushZero, counterIncr, counterPop, clear on three results, two sharing captures or none; values symbolic', 'thorough': 'any four'}, ['end'], {'SV_K': 3}, {'SV_K': 4}),
 u('counted', 'x_match.cpp', RX, {'quick': 'up to 4 nodes over literal, two counts, ( ) and named groups', 'thorough': 'up to 4 nodes over literal ? six counts ( ) and named groups'}, ['matched', 'failed'], XT(NODES=4, KINDS='"L{(<"', NAMED=1, COUNTS='{2,2,"{2}"},{0,2,"{,2}"}'), XT(NODES=4, KINDS='"L?{(<"', NAMED=1))])
FP = [','.join(str(i) for i in list(range(20, 32)) + x) for x in ([], list(range(504, 514)))]
FT = '"",' + ','.join('"%s"' % t for t in 'a a| | b* (a|b)* (a){2,} (a|b){,2} (?<x>a) (?<y>a)? (?!a) |c * + {2} ? {2,5}'.split())
TK = lambda s: ','.join('"%s"' % t for t in s.split())
C('X04', [u('chars', 'x_form.cpp', FX, {'quick': 'every expression of 5 ASCII characters', 'thorough': 'every expression of 6'}, ['compiled', 'refused'], {'PLEN': 5}, {'PLEN': 6}),
 u('tokens', 'x_form.cpp', FX, {'quick': 'every sequence of 5 of: a literal, . ? * + {2,3} {,2} ( ) | a class, a named group or a lookahead opened', 'thorough': 'every sequence of 6'}, ['compiled', 'refused', 'captures', 'counters'], {'NTOK': 5, 'TOKS': TK('a . ? * + {2,3} {,2} ( ) | [ab] (?<x> (?!')}, {'NTOK': 6, 'TOKS': TK('a . ? * + {2,3} {,2} ( ) | [ab] (?<x> (?!')}),
 u('groups', 'x_form.cpp', FX, {'quick': 'every sequence of 4 of twelve groups of one item each, opened, closed, counted or alternative, within (?<g>a...b){,2}', 'thorough': 'every sequence of 5'}, ['compiled', 'refused', 'captures', 'counters'], {'NTOK': 4, 'LEAD': '"(?<g>a"', 'TAIL': '"b){,2}"', 'TOKS': TK('(a|b) (a|b)* (a){2,} (?<x>a) (?<y>a)? (?!a) |c (a ) ){2} (?!b {3}')}, {'NTOK': 5, 'LEAD': '"(?<g>a"', 'TAIL': '"b){,2}"', 'TOKS': TK('(a|b) (a|b)* (a){2,} (?<x>a) (?<y>a)? (?!a) |c (a ) ){2} (?!b {3}')}),
 u('bytes', 'x_form.cpp', FX, {'quick': 'every expression of 3 non-NUL bytes', 'thorough': 'every expression of 4'}, ['compiled', 'refused'], {'PLEN': 3, 'ASCII': 0}, {'PLEN': 4, 'ASCII': 0}),
 u('names', 'x_form.cpp', FX, {'quick': 'a named group after one with a name of 130 characters, its name and what follows any 3 bytes', 'thorough': 'any 4 bytes'}, ['compiled', 'refused', 'captures'], {'PLEN': 3, 'ASCII': 0, 'LEAD': '"(?<%s>a)(?<"' % ('n' * 130), 'TAIL': '">b)"'}, {'PLEN': 4, 'ASCII': 0, 'LEAD': '"(?<%s>a)(?<"' % ('n' * 130), 'TAIL': '">b)"'}),
 u('far', 'x_form.cpp', FX, {'quick': '(T C T)T with every T of eighteen tokens or none, and C of 20-31 characters, where an offset grows from one byte to two', 'thorough': 'also 504-513, where it grows from two to three'}, ['compiled', 'refused', 'captures', 'counters'], {'FAR': 1, 'PADS': FP[0], 'TOKS': FT}, {'FAR': 1, 'PADS': FP[1], 'TOKS': FT}, max_steps=60000000),
 u('long', 'x_form.cpp', FX, '1, 9, 17 or 25 classes or named groups of 1, 2, 126-130 or 254-258 bytes', ['compiled', 'captures'], {'MANY': 4, 'PADS': '1,2,126,127,128,129,130,254,255,256,257,258'}, max_steps=60000000),
 ])
GP = lambda k, n, s: dict(KIND=k, N=n, SV_K=s)
C('G01', [u('chars', 'g_ptr.cpp', [], {'quick': 'plain pointers: every text of 0-3 bytes, every two operations', 'thorough': 'every text of 0-4 bytes, every three operations'}, ['end'], GP(0, 3, 2), GP(0, 4, 3)),
 u('nul', 'g_ptr.cpp', [], {'quick': 'NUL-guarded: as chars', 'thorough': 'as chars'}, ['end', 'clamp_eof'], GP(1, 3, 2), GP(1, 4, 3)),
 u('guarded', 'g_ptr.cpp', [], {'quick': 'guarded at both ends, origin anywhere in the text: as chars', 'thorough': 'as chars'}, ['end', 'clamp_eof', 'clamp_bot'], GP(2, 3, 2), GP(2, 4, 3)),
 u('utf8nul', 'g_ptr.cpp', CE, {'quick': 'UTF-8, NUL-guarded: every text of 0-3 bytes, valid or corrupt (no overlong NUL), every two operations', 'thorough': 'every text of 0-4 bytes, every two operations'}, ['end', 'clamp_eof', 'wide'], GP(3, 3, 2), GP(3, 4, 2)),
 u('utf8', 'g_ptr.cpp', CE, {'quick': 'UTF-8, guarded at both ends, origin anywhere: every text of 0-3 bytes, every two operations', 'thorough': 'every text of 0-4 bytes, every two operations'}, ['end', 'clamp_eof', 'clamp_bot', 'wide'], GP(4, 3, 2), GP(4, 4, 2)),
 u('utf8long', 'g_ptr.cpp', CE, {'quick': 'as utf8: every text of 0-5 bytes, any one operation', 'thorough': 'every text of 0-6 bytes, any one operation'}, ['end', 'clamp_eof', 'clamp_bot', 'wide'], GP(4, 5, 1), GP(4, 6, 1)),
])

PT = ['src/thread.cpp', 'src/condition.cpp', 'src/lockfree.cpp']
C('T01', [u('two', 't_latch.cpp', ['src/lockfree.cpp'], {'quick': 'two threads of any two steps each (enter and leave, probe, holding, nothing), every interleaving of up to 3 preemptions', 'thorough': 'up to 7 preemptions'}, ['end', 'probed', 'busy'], {'NT': 2, 'ST': 2}, threads=True, preempt={'quick': 3, 'thorough': 7}),
 u('three', 't_latch.cpp', ['src/lockfree.cpp'], {'quick': 'three threads of one step each, up to 3 preemptions', 'thorough': 'up to 5 preemptions'}, ['end', 'probed', 'busy'], {'NT': 3, 'ST': 1}, threads=True, preempt={'quick': 3, 'thorough': 5}),
 u('held', 't_latch.cpp', ['src/lockfree.cpp'], 'a probe while the latch is held by a thread that waits for the probe to come back, another waiting to enter or not; up to 4 preemptions', ['end', 'busy'], {'HELD': 1}, threads=True, preempt=4),
 u('make', 't_latch.cpp', ['src/lockfree.cpp'], 'the first two latches of the program made and used by two threads at once; up to 3 preemptions', ['end'], {'MAKE': 1}, threads=True, preempt=3),
 u('misuse', 't_latch.cpp', ['src/lockfree.cpp'], 'entering twice, leaving without entering, leaving twice', [], {'MISUSE': 1}),
])
C('T02', [u('lives', 't_thread.cpp', PT, {'quick': 'any four of start, join, joinAny, destroy on up to two threads, memory and system identities used again; up to 3 preemptions', 'thorough': 'any five on up to three threads, up to 2 preemptions'}, ['end', 'joined', 'any', 'none'], {'MAXT': 2, 'STEPS': 4}, {'MAXT': 3, 'STEPS': 5}, threads=True, preempt={'quick': 3, 'thorough': 2}),
 u('nested', 't_thread.cpp', PT, {'quick': 'as lives with three steps and threads that start a thread', 'thorough': 'four steps, up to three threads'}, ['end', 'any'], {'MAXT': 2, 'STEPS': 3, 'NEST': 1}, {'MAXT': 3, 'STEPS': 4, 'NEST': 1}, threads=True, preempt={'quick': 2, 'thorough': 2}),
])
C('X05', [u('match', 'x_share.cpp', RX, {'quick': 'two threads, each matchAt or matchAfter of one program made from one of four expressions, on texts of 1 ASCII character that share contents; up to 1 preemption', 'thorough': 'texts of 2 characters'}, ['end', 'matched', 'failed'], {'TLEN': 1}, {'TLEN': 2}, threads=True, preempt=1),
 u('results', 'x_share.cpp', RX, {'quick': 'two threads, each with a copy of one result, reading it, changing it or changing a copy; up to 2 preemptions', 'thorough': 'up to 4 preemptions'}, ['end'], {'TLEN': 2, 'RESULTS': 1, 'PATTERNS': '"(?<x>a)*b","a{2}"'}, threads=True, preempt={'quick': 2, 'thorough': 4})])
C('X06', [u('tokens', 'x_feat.cpp', RX, {'quick': 'every expression of up to 2 of 29 tokens covering the syntax, every set of features enabled and every set rejected', 'thorough': 'up to 3 tokens'}, ['compiled', 'rejected', 'wrong'], {'TOKENS': 2}, {'TOKENS': 3}),
 u('few', 'x_feat.cpp', RX, {'quick': 'up to 4 of the tokens z ? (?: (?<n> ) |, every set of features enabled and rejected', 'thorough': 'up to 5'}, ['compiled', 'rejected', 'wrong'], {'TOKENS': 4, 'SET': '"z","?","(?:","(?<n>",")","|"'}, {'TOKENS': 5, 'SET': '"z","?","(?:","(?<n>",")","|"'})])
C('X07', [u('rules', 'x_refuse.cpp', RX, {'quick': 'every expression of up to 3 of 35 tokens, right and broken, and one of 17 endings', 'thorough': 'also of 4 tokens'}, ['compiled', 'refused'], {'RULES': 1, 'TOKENS': 3}, {'RULES': 1, 'TOKENS': 4}),
 u('counts', 'x_refuse.cpp', RX, {'quick': 'every count {n} and {n,m} of up to 4 digits each', 'thorough': 'up to 10 digits each'}, ['compiled', 'refused'], {'COUNTS': 1, 'MAXD': 4}, {'COUNTS': 1, 'MAXD': 10}),
 u('limits', 'x_refuse.cpp', RX, '0-14 groups of any kind inside each other, with or without alternatives; 1-257 named groups, all different or two the same', ['compiled', 'refused'], {'LIMITS': 1}, max_steps=60000000),
 u('names', 'x_refuse.cpp', RX, 'two groups with every name of 1-3 ASCII characters', ['compiled', 'refused'], {})])
CO = ['src/thread.cpp', 'src/condition.cpp', 'src/lockfree.cpp']
C('T03', [u('wake', 't_cond.cpp', CO, {'quick': 'two waiting threads, items handed over with a signal each, or with one broadcast, made with the latch held or not; up to 3 preemptions', 'thorough': 'up to 9 preemptions'}, ['end', 'waited'], {'NW': 2}, threads=True, preempt={'quick': 3, 'thorough': 9}),
 u('wake3', 't_cond.cpp', CO, {'quick': 'as wake with three waiting threads, up to 1 preemption', 'thorough': 'up to 4 preemptions'}, ['end', 'waited'], {'NW': 3}, threads=True, preempt={'quick': 1, 'thorough': 4}),
 u('timed', 't_cond.cpp', CO, 'a timed wait of one of nine delays (0, 1, 999, 1000, 1001, 1999, 2500, 86399999 and 4000000000 ms) from every time of day, signalled or not', ['end', 'timed out', 'signalled'], {'TIMED': 1, 'DELAYS': '0,1,999,1000,1001,1999,2500,86399999,4000000000'}, threads=True, preempt=2),
])
C('R01', [u('refs', 'r_ref.cpp', [], {'quick': 'any four of nine operations (new object, assign a reference or a pointer, also null, also from inside the object it releases, link, unshare, copy, convert) on three references; objects that refer to each other without cycles', 'thorough': 'any five'}, ['end', 'unshared'], {'SV_K': 4}, {'SV_K': 5})])
SHB = 'two threads, each with its own value sharing contents (whole or a part), %s any of copy and read, append, insert, shorten, change a copy, drop, while the third holder drops its own or keeps it; '
C('R02', [u(n, 'r_share.cpp', SV, {'quick': SHB % 'doing' + 'up to 2 preemptions', 'thorough': SHB % 'doing two of' + 'up to 1 preemption'}, ['end'], {'TYPE': ty, 'ST': 1}, {'TYPE': ty, 'ST': 2}, threads=True, preempt={'quick': 2, 'thorough': 1}) for n, ty in (('strings', 0), ('arrays', 1), ('maps', 2))]
 + [u('built', 'r_share.cpp', SV, {'quick': 'as strings, the shared string put together from parts by appending, inserting or changing case, and not looked at since', 'thorough': 'up to 3 preemptions'}, ['end'], {'TYPE': 0, 'ST': 1, 'BUILT': 1}, threads=True, preempt={'quick': 1, 'thorough': 3})]
 + [u(n + '3', 'r_share.cpp', SV, SHB % 'doing' + 'up to %d preemptions' % p, ['end'], {'TYPE': ty, 'ST': 1}, threads=True, preempt=p, thorough_only=True) for n, ty, p in (('strings', 0, 4), ('arrays', 1, 4), ('maps', 2, 3))])
