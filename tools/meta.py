# The properties, and how MANIFEST.json presents each check.  `python3 tools/meta.py` regenerates properties.jsonl and MANIFEST.json.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props
P = []
def P_(id, title, statement, over, qtext, why, files, mech, observe, level_note=None, state=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe]))
    if state: d['anchors']['state'] = [dict(name=state.split(' (')[0], meaning=state)]
    P.append((d, level_note, na))

I, H, S = 'inputs', 'histories', 'schedules'
CE = ['include/char_encoding.h', 'src/char_encoding.cpp']
SVF = ['include/strval.h', 'include/array.h', 'include/refcount.h', 'include/char_encoding.h', 'src/char_encoding.cpp', 'src/variant.cpp']
P_('U01', 'UTF-8 encoding round-trips every 31-bit character and keeps strings aligned',
   'Writing any character value below 2^31 as UTF-8 and reading it back yields the same value and consumes exactly the bytes written, in the minimum length form; one byte marked illegal is written back as that original byte. Writing two characters in succession and reading forward returns both in order. A place-holder of 1 to 6 bytes is a zero character of exactly that length.',
   [I], 'every pair of 32-bit character values, including values above Unicode and illegal-byte codes',
   'char_encoding_test writes a handful of characters; 2^32 values per position cannot be sampled.', CE,
   [('UTF8Put', 'include/char_encoding.h'), ('UTF8Get', 'src/char_encoding.cpp'), ('UTF8Len', 'include/char_encoding.h')],
   'bytes written, value read back and pointer advance of the public encoding functions')
P_('U02', 'UTF-8 decoding is total, never over-reads, and loses no byte',
   'Reading characters forward through any NUL-terminated byte string always advances, never reads beyond the NUL, and stops exactly there. A well-formed sequence yields its character; every byte that is not part of one yields one illegal-byte code from which that byte is recovered, so re-encoding what was read reproduces the original bytes. The length function agrees with the reader on every sequence.',
   [I], 'every NUL-terminated byte string up to the stated length, valid or corrupt',
   'Tests use valid text and a few truncations; corrupt byte combinations are too many to enumerate.', CE,
   [('UTF8Get', 'src/char_encoding.cpp'), ('UTF8Len', 'include/char_encoding.h')], 'values returned, pointer advance, out-of-bounds reads')
P_('U03', 'Backing up through UTF-8 visits the same boundaries as reading forward',
   'From the end of any byte string, stepping backward visits exactly the character boundaries that reading forward visits, in reverse order, and never moves or reads before the start of the text or past its end.',
   [I], 'every NUL-terminated byte string up to the stated length, every boundary in it',
   'Tests back up over a few valid strings; the disagreements appear only in truncated or over-long sequences.', CE,
   [('UTF8Backup', 'src/char_encoding.cpp')], 'pointers returned by the backward step compared with the forward reader')
P_('U04', 'UTF-16 encoding round-trips and its predicates partition the code units',
   'Every Unicode scalar value written as UTF-16 reads back as itself, in the machine order or swapped, as one unit below 0x10000 and a high-low surrogate pair above. Each 16-bit unit is classified as exactly one of lead surrogate, trail surrogate or plain character.',
   [I], 'every pair of Unicode scalar values and every 16-bit unit', 'The UTF-16 functions have almost no tests.', CE,
   [('UTF16Put', 'include/char_encoding.h'), ('UTF16Get', 'include/char_encoding.h')], 'units written, value read back, predicates')
P_('U05', 'Case, digit and class of a character never depend on earlier queries',
   'The upper, lower and title case of a character, its decimal and hexadecimal digit value and whether it is alphabetic, white space, or in a named range are fixed functions of the character that match Unicode for the repertoire the library covers, whatever character was asked about before. Title-casing twice equals title-casing once.',
   [I, H], 'every 32-bit character value after one arbitrary earlier call (the conversion functions keep a static cache)',
   'Tests look up a few characters; the search of the table starts from a cache left by the previous call.', CE + ['src/case_conversions.c'],
   [('UCS4ToUpper', 'src/case_conversions.c'), ('UCS4ToLower', 'src/case_conversions.c'), ('UCS4Digit', 'src/char_encoding.cpp'), ('UCS4IsAlphabetic', 'src/char_encoding.cpp')],
   'return values of the public classification functions', state='static last-found table entry')
P_('S01', 'Strings are values: an edit changes only the string edited, and exactly so',
   'Copying, slicing (substr, head), inserting, appending, prepending, concatenating, assigning and repeating strings give exactly the character sequence those operations mean, at any character position and for characters of any width. No operation on one string changes any other string, however storage is shared between them. No operation reads or writes outside its storage.',
   [I, H], 'every sequence of the stated number of operations over three variables, every position among those listed, every character content of the layouts',
   'The tests exercise single operations on mostly ASCII strings; sharing, slices, bookmarks and multi-byte positions only interact over histories.', SVF,
   [('copy-on-write', 'include/strval.h StrValI::Unshare/copyBody'), ('bookmarks', 'include/strval.h StrBodyI::nthChar'), ('insert', 'include/array.h ArrayBody::insert')],
   'length, bytes and characters of every live string after each operation; memory errors', state='body reference count, slice offset, bookmark')
P_('S02', 'Searching a string returns exactly the first or last match in its own characters',
   'Searching for a character, a substring, any of a set or none of a set, forwards after or backwards before a given position, returns the nearest matching position and -1 if there is none. Text outside a slice never matches and is never read.',
   [I], 'every content of the haystack and needle layouts, every start position, whole strings and slices',
   'Tests search a few literals; slices inside larger bodies, end positions and empty needles are not covered.', SVF,
   [('find/rfind family', 'include/strval.h')], 'returned positions against a reference search')
P_('S03', 'String comparison is a byte-wise total order consistent with equality',
   'Comparing two strings gives the sign of the lexicographic order of their bytes, a proper prefix being less; it is antisymmetric, agrees with all six relational operators and with the map comparator, and depends on nothing outside the two strings, whether whole or slices.',
   [I], 'every pair of texts of the layouts, whole or sliced', 'Tests compare a few literals, none with slices of a larger body.', SVF,
   [('compare', 'include/strval.h StrValI::compare')], 'sign of compare and every operator')
P_('S04', 'Reading an integer from a string reports the value or the exact error',
   'For every text and radix, asInt32 accepts optional white space, a sign, a radix prefix where the radix allows it and digits of the radix in either case, and returns the signed value. It reports trailing text, absence of digits, a non-number, an illegal radix, or a magnitude that does not fit in 32 bits, and never silently wraps. The count of characters scanned covers what was accepted.',
   [I], 'every text of the layouts with every listed radix; long digit strings around the overflow boundaries',
   'Tests convert about a dozen literals; overflow boundaries and prefix combinations in every radix are out of reach.', SVF,
   [('asInt32', 'include/strval.h')], 'value, error number and scanned count')
exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None

LEVEL = 'model_checking'
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=True) + '\n')
    checks, nas = [], []
    for d, note, na in P:
        i = d['id']
        if i in props.CHECKS and not na:
            c = props.CHECKS[i]
            b = '; '.join('%s: %s' % (x['name'], x['bounds'] if isinstance(x['bounds'], str) else x['bounds']['quick']) for x in c['units'] if not x.get('thorough_only'))
            checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                evidence_file='evidence/%s.json' % i, technique='symbolic execution of the compiled real code (LLVM IR) with z3 deciding every assertion and memory access; counterexamples replayed natively',
                level=LEVEL, level_note=(note + ' ' if note else '') + 'Exhaustive within bounds: ' + b))
        else:
            nas.append(dict(property=i, reason=na or 'no check built yet'))
    m = dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=nas,
             notes='Every check compiles the sources it needs from /repo to LLVM IR on each run, executes them symbolically and replays counterexamples on an ASAN build. See DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
main()
