P_('S05', 'A string rendered as JSON decodes to exactly the same characters',
   'For every string of Unicode characters, toJSON yields text that a JSON reader decodes to exactly the original characters: quotes, backslashes and control characters (NUL included) are escaped in a form JSON defines, characters above U+FFFF as the correct surrogate pair, each exactly once; bytes that are not UTF-8 become U+FFFD. The string it was asked of, and every string sharing its storage, is unchanged by asJSON, and toJSON of a slice converts only the slice.',
   [I], 'every text of the layouts (all characters of each byte length), every slice, shared or not', 'The tests render a few strings; surrogate pairs, NUL and slices are not among them.', SVF,
   [('toJSON/asJSON', 'include/strval.h')], 'bytes of the result decoded by an independent JSON reader; the sharers')
P_('S06', 'Case conversion and transform rewrite exactly the text of the string asked',
   'Lower- or upper-casing a string replaces each of its characters by its case counterpart, including those whose UTF-8 length changes, and leaves illegal bytes and characters without case alone; transform() replaces exactly the characters the function consumed with what it returned, after the given position. The in-place forms change only the string asked, the copying forms change none.',
   [I, H], 'every slice of every text of the layouts, shared or not, in place or copying; every consume count and replacement', 'Tests convert a few whole strings; slices and shared bodies only go wrong in combination with the length changes.', SVF,
   [('transform', 'include/strval.h StrBodyI::transform')], 'characters and bytes of the string asked and of its sharers')
P_('S07', 'Joined, repeated and formatted text is exactly its pieces in order',
   'join() of an array of strings is its elements in order with the joiner between each two; a text times n is the text n times over; a text put together with literals and characters by + += prepend and append is those pieces in order. format() copies the text of the format and puts in place of each %s the text and of each %d the decimal value of the next parameter, or of the one whose number it gives as in %2$s, taking a size given as * from the parameters. An array of strings gives back exactly the strings put in it. Nothing that was used changes, and the result is independent of it.',
   [I], 'every text of the layouts, whole, sliced or contiguous slices of one text, empty ones included; every format of the stated number of parts', 'Tests join three words; contiguous slices, empty elements and numbered parameters are not among them.', SVF + ['include/strformat.h'],
   [('StringArray::join', 'include/strval.h'), ('StrVal::format', 'include/strformat.h'), ('operator+, operator*', 'include/strval.h')], 'characters and bytes of the result, the pieces and the arrays; allocation balance')
P_('S08', 'Length, characters, bytes and slices of a string agree however it was built',
   'A string built from NUL-terminated or counted UTF-8, from a single character, from a string reference or as a copy of a static string holds exactly the characters of that text, independent of the buffer it came from. length, numBytes, operator[], truth, asUTF8 (NUL-terminated), substr, head, tail and shorter agree on them for whole strings and for slices of slices, in whatever order they are asked; raw binary text holds each byte as given. Strings with static storage are no different.',
   [I], 'every text of the layouts built in each of six ways (embedded NULs and illegal bytes included); every slice and every slice of that slice; raw texts of any bytes', 'Tests check literals; the byte counts depend on every mix of character widths and on illegal bytes.', SVF,
   [('StrVal constructors', 'include/strval.h'), ('slices', 'include/strval.h StrValI::substr')], 'length, bytes and characters against a reference decoding')
P_('E01', 'Error numbers carry their set and message faithfully and assign by reference',
   'An ErrNum keeps the subsystem set and message number it was made from, compares equal exactly to the same set and message, is negative when it is an error and zero only when it is none, and survives conversion to and from its 32-bit code. An Error keeps its number, default text and parameters through copies and assignments; assignment changes only its target, and its body is released once.',
   [I, H], 'every set and message number and 32-bit code; five assignment histories', 'Tests use a few small numbers; overlap of the flag bits shows only for some.', ['include/error.h', 'include/refcount.h'],
   [('ErrNum', 'include/error.h'), ('Error', 'include/error.h')], 'set, message, code, comparison and truth of the error')
P_('A01', 'Arrays are values: an edit changes only the array edited, and exactly so',
   'Copying, slicing, appending, inserting (also into itself), pushing, popping, shifting, removing, deleting, reversing, setting and clearing give exactly the element sequence those operations mean, whatever storage is shared, whether the array is a slice or refers to static data. No operation changes any other array, no operation reads or writes outside its storage, and every element is destroyed exactly once.',
   [I, H], 'every sequence of the stated number of operations over two arrays from five starting points, all positions listed, every element value', 'Tests check single operations; offset, sharing and static storage interact over histories.', ['include/array.h', 'include/refcount.h'],
   [('Array', 'include/array.h'), ('Unshare', 'include/array.h')], 'elements and length of every live array; memory errors; allocation balance', state='body reference count, slice offset, static-data flag')
P_('A02', 'Array searches, folds and comparison agree with a linear reading',
   'find, rfind, detect, any, all, one, select, map, each, inject, and compare/== over any array or slice give exactly what a left-to-right reading of its elements gives, empty arrays included; bsearch on a sorted array finds an element equal to the key if and only if there is one.',
   [I], 'every array of the stated lengths with symbolic elements, whole, sliced and empty; every start position', 'Tests search a couple of arrays; first and last positions, empty arrays and prefixes are missed.', ['include/array.h'],
   [('bsearch', 'include/array.h'), ('compare', 'include/array.h'), ('find/rfind', 'include/array.h')], 'returned indexes, values and order')
P_('M01', 'Copy-on-write maps are sorted key-value values independent of their copies',
   'A map behaves as the sorted association of its keys: put adds or replaces, insert keeps the first, remove deletes, lookup gives the value or the default, iteration, keys() and values() run in key order, and the functional methods agree with it. A change to one map never changes another that shared its storage, and all storage is released once.',
   [I, H], 'every sequence of the stated number of operations on two maps with symbolic keys and values, shared or not; integer and string keys', 'Tests put a few literals; sharing combined with replacement and removal in every key order is out of reach.', ['include/cowmap.h', 'include/refcount.h', 'include/strval.h'],
   [('CowMap', 'include/cowmap.h'), ('Unshare', 'include/cowmap.h')], 'entries of both maps after each operation; allocation balance', state='body reference count')
PEX = ['include/pegexp.h', 'include/char_encoding.h', 'include/utf8_ptr.h']
P_('P01', 'A pegular expression matches exactly what its operators mean',
   'match_here succeeds exactly when the prefix notation says so - literals, any, line start and end, classes, properties, greedy optional and repetition, and/not look-ahead, sequences, groups, ordered alternatives - and leaves the source just after the longest text the possessive rules take, or where it was on failure. match finds the earliest such place. Captures are those on the path that matched, in order, with their exact text; line and column are right.',
   [I], 'every pattern tree of the stated number of nodes with symbolic literals, against every text of the stated length', 'Tests try about a hundred pattern and text pairs; operators interact by nesting, and failures inside operands are skipped differently than they match.', PEX,
   [('match_sequence/match_atom', 'include/pegexp.h'), ('skip_atom', 'include/pegexp.h'), ('captures and rollback', 'include/pegexp.h')], 'success, source position, captures, line and column')
P_('P02', 'Classes, escapes and properties match the characters they say, wherever used',
   'Every way to write a single character in a pattern - octal, hexadecimal and Unicode escapes of each length, braced or not, control-letter and punctuation escapes, property letters, and classes of literals, ranges, properties and escapes, negated or not - matches exactly the characters it stands for, alone, under ? & !, or in an alternative, and is skipped as exactly the same pattern text when it is not taken.',
   [I], 'every digit and literal of every form against every character of 1-3 bytes, in eight contexts', 'Tests use a few escapes; matching and skipping parse the pattern separately.', PEX,
   [('match_class', 'include/pegexp.h'), ('literal_char', 'include/pegexp.h'), ('skip_atom', 'include/pegexp.h')], 'success and position of the match')
P_('P03', 'Any pattern text, however malformed, is matched without harm',
   'Whatever bytes a pattern holds, well-formed or not, matching it against any text ends, never reads beyond the end of the pattern or of the text, reports a match that lies within the text or a failure that leaves the source where it was, and leaves the context with its nesting counts balanced.',
   [I], 'every pattern of the stated number of bytes against every text of the stated length', 'Tests use well-formed patterns; truncated escapes, classes and operators are countless.', PEX,
   [('skip_atom', 'include/pegexp.h'), ('literal_char', 'include/pegexp.h'), ('match_class', 'include/pegexp.h')], 'memory errors, termination, source and pattern positions')
PG = ['include/peg.h', 'include/pegexp.h']
P_('P04', 'A PEG grammar parses exactly what its rules mean, without left-recursion loops',
   'Calling a rule by <name> means matching the expression of the rule of exactly that name at that place; unknown names and rules that call themselves at the same place fail rather than loop. A parse succeeds exactly when the top rule matches and ends where that match ends. Each rule is found by its whole name even when one name is the start of another.',
   [I], 'every grammar of two or three rules within the stated number of nodes, and every text of the stated length; every set of three names', 'Tests parse a few grammars; recursion through look-ahead, repetition and failed alternatives is not sampled.', PG,
   [('Peg::parse_rule', 'include/peg.h'), ('Peg::lookup', 'include/peg.h'), ('left recursion check', 'include/peg.h')], 'success and end of the parse; rule found')
P_('P05', 'The tree a PEG parse returns holds exactly the captures the grammar asks for',
   'A successful parse returns a map with, under each name the rule asked to capture and no other, the text or tree matched under that label: a single value where it occurs once, an array in order where it is repeated or occurs again, nested maps for rules that capture. Empty captures, look-aheads and alternatives that failed leave nothing. All memory is released.',
   [I], 'every text up to the stated length over 13 grammars that combine labels, rules, repetition, alternatives and look-ahead', 'Tests compare a few parse trees; a capture left from a failed path shows only on particular texts.', PG + ['include/peg_ast.h', 'include/variant.h'],
   [('PegContext::capture', 'include/peg_ast.h'), ('rollback_capture', 'include/peg_ast.h'), ('is_captured', 'include/peg_ast.h')], 'the returned tree, serialised; allocation balance')
P_('P06', 'A parse tells how far it got and what would have let it get further',
   'After a PEG parse with a PegContext, whether it succeeded or failed, the match lists the distinct literal characters and character classes that failed at the furthest place in the text where any failed outside look-ahead, in the order they were first tried there: each names the position of the atom in its rule, the whole length of the atom, and the rules that were being parsed, outermost first. The furthest place is reported with them. The list is empty exactly when no such atom failed. (Escaped characters, properties, ., ^ and $ are not reported.)',
   [I], 'every text up to the stated length over 24 grammars that combine literals, classes, rules, repetition, alternatives and look-ahead', 'Tests print the report for a person to look at, and only for parses that succeed in part.', PG + ['include/peg_ast.h'],
   [('record_failure', 'include/peg_ast.h'), ('match_failure/match_result', 'include/peg_ast.h'), ('match_atom', 'include/pegexp.h')], 'the failures reported, their rules, lengths and place; allocation balance')
P_('P07', 'A text source knows where it is, and so does every copy of it',
   'A source of pegular matching counts the bytes taken from it, the line it is on (from 1, one more for each newline taken) and its column in that line (from 1, in characters, or bytes where bytes are taken). It is at the start of a line exactly at its start or after a newline, and at its end exactly where the text ends; taking from it there gives the end marker and does not move it. Copies move independently; same, <, - and bytes_from compare places. The start and end of a match found in a text have the byte, line and column of those places.',
   [I, H], 'every text of the stated number of bytes, valid UTF-8 or not; every sequence of the stated number of operations on two sources', 'Tests print positions in ASCII texts; lines and columns after wide, illegal or overlong characters are not looked at.', PEX + ['include/peg_ast.h'],
   [('PegexpPointerSource', 'include/pegexp.h'), ('PegMemorySource', 'include/peg_ast.h'), ('Pegexp::match', 'include/pegexp.h')], 'byte, line, column, ends and comparisons of every source after each operation')
VF = ['include/variant.h', 'src/variant.cpp', 'include/strval.h', 'include/array.h', 'include/cowmap.h']
P_('V01', 'Variants are independent values, and coercion between types loses nothing',
   'A Variant of any type, however constructed, copied, assigned (also to itself), defaulted or appended with <<, holds exactly the value given; writing to one, or changing an array, map or string taken from it, changes no other; all storage is released once. Asking for another type converts the Variant to that type with the same value - numbers to other widths, numbers to their decimal text, text to numbers - or stops with a failed assertion when the value would not survive; it never silently truncates.',
   [I, H], 'every sequence of the stated number of operations over variants of every kind with symbolic contents; every pair of types and every number of full width', 'Tests convert two numbers and print a few variants; the union is only corrupted in particular orders.', VF,
   [('coerce', 'include/variant.h'), ('copy/assign', 'include/variant.h'), ('StringArray(const StrVal*, Index)', 'include/strval.h')], 'type and value of every variant; aborts; allocation balance')
P_('V02', 'A Variant rendered as JSON reads back as the same data in every layout',
   'as_json of any Variant - null, numbers of each width, strings, arrays of strings, arrays of variants, maps and nestings of them - is JSON text that a JSON reader turns back into the same structure: exact numbers and characters, elements in order, map entries in key order. With indent -2 it has no white space outside strings, with -1 only single-line spaces, with n >= 0 each element is on its own line indented two spaces for each level starting at n.',
   [I], 'every variant within the stated depth and size, all contents symbolic, every layout mode', 'Tests print one line for a person to look at.', VF,
   [('as_json', 'include/variant.h')], 'the text returned, read by an independent JSON reader')
RXF = ['rx/rxcompile.cpp', 'rx/rxmatch.cpp', 'rx/strregex.h']
P_('X01', 'A regular expression finds exactly the leftmost, longest match of its syntax',
   'A well-formed expression compiles, and matchAt(text, offset) succeeds exactly when the expression, read by its documented syntax - literals, escapes, any, line start and end, classes, \\s \\d \\h, ? * + {n,m} (not {0}), groups, alternatives, negative lookahead - matches there, reporting the longest such match; matchAfter reports the first offset at or after the given one that matches, and the longest match there. Features disabled are literal text, rejected ones an error where used. Neither the length of the expression nor the number of alternatives or repetitions changes this, and matching again gives the same result.',
   [I], 'every expression tree within the stated number of nodes, every atom form with symbolic digits and characters, every text of the stated length; expression sizes at the offset boundaries', 'Tests match about a hundred fixed pairs; threads that meet at one place with different histories, and offsets that change size, are not sampled.', RXF,
   [('RxMatch::addthread', 'rx/rxmatch.cpp'), ('RxCompiler::scanRegex', 'rx/rxcompile.cpp'), ('RxCompiler::compile', 'rx/rxcompile.cpp')], 'success, offset and length against a reference matcher')
P_('X02', 'Any expression text compiles to a runnable program or is refused with a message',
   'Whatever bytes an expression holds, and whichever features are enabled or rejected, compile() ends without touching memory outside the expression or the program it allocates. It either returns a program that can be run on any text from any offset, reporting a match and captures that lie within the text, or returns false with no program, a message, and an offset within the expression. The compiler can be used again with the same outcome, and all memory is released.',
   [I], 'every expression of the stated number of bytes on every text of the stated length', 'Tests compile well-formed expressions and a dozen errors; program space is sized by an estimate that only particular combinations exceed.', RXF,
   [('first_pass/second_pass', 'rx/rxcompile.cpp'), ('RxProgram', 'rx/rxmatch.cpp')], 'memory errors, failed assertions, return value, message, result ranges, allocation balance')
P_('X03', 'Named groups report the text they matched in one way of matching the whole',
   'After a match, each named group is known by its name in order of occurrence, and the captures reported are, all together, those of one way in which the expression matches exactly the text reported: a group that took part has the start and end of its last participation, a group that took no part has 0,0. Captures made on abandoned alternatives, in repetitions undone or inside a lookahead are never reported.',
   [I], 'every expression with named groups within the stated number of nodes, every text of the stated length', 'No test looks at a capture.', RXF,
   [('RxoCaptureStart/RxoCaptureEnd', 'rx/rxmatch.cpp'), ('RxCaptures', 'rx/rxmatch.cpp'), ('RxResult::Unshare', 'rx/rxmatch.cpp')], 'group names and capture offsets against every derivation of a reference matcher')
P_('X04', 'Every program the regular expression compiler makes is well formed',
   'In the program made for any expression that compiles, whatever can be reached from its start or search station is a whole instruction inside the program; the number of repetition counters in use at an instruction is the same by whichever way it is reached, is never more than the program declares and is none where the program accepts; every capture is one the program declares and has the name of its group; the accepting instruction can be reached; and the dump shows the instructions that are run, starting and ending where they do.',
   [I], 'every expression of the stated number of characters, or of the stated number of tokens from the whole syntax', 'Tests compare dumps of some expressions; a branch that lands wrongly matters only for expressions nested in particular ways, on particular texts.', RXF + ['rx/rxdump.cpp'],
   [('RxCompiler::compile', 'rx/rxcompile.cpp'), ('RxProgram::decode', 'rx/rxmatch.cpp'), ('dumpInstruction', 'rx/rxdump.cpp')], 'every instruction reached, decoded by the matcher and by the dump; memory errors; allocation balance')
P_('X06', 'Features turned off are plain text, and features rejected are refused',
   'A regular expression compiled with any set of features gives the very program that the same expression gives, with all features on, when what is off is written as plain text: an operator that is off stands for itself, an escape that is off for the character after the backslash, shell-style ? and * and extended white space do as they say where chosen. A feature that is rejected makes compile() fail with a message, at or before the first place where it is used. A feature that is not used makes no difference.',
   [I], 'every expression of the stated number of tokens from the whole syntax, every set of features enabled and every set rejected', 'Tests use all features only.', RXF,
   [('RxCompiler::scanRegex', 'rx/rxcompile.cpp'), ('RxCompiler::supported', 'rx/rxcompile.cpp'), ('RxFeature', 'rx/strregex.h')], 'result of compile(), error message and offset, and the program byte by byte')
P_('X07', 'An expression is refused exactly when it breaks a rule of the syntax',
   'With all features on, compile() refuses an expression when, and only when, it breaks a rule: every repetition has one thing to repeat before it, so not a repetition, the start of a group or alternative or a line anchor; groups are opened and closed in pairs and at most 11 deep; named groups have names that are not empty and all different, and are at most 254; the counts of {n} and {n,m} are whole numbers in order, m of 0 or none being no maximum, and at most 254; and escapes, properties, classes and kinds of group are whole and known. A refusal comes with a message about a place in the expression and no program, a program with no message.',
   [I], 'every expression of the stated number of right and broken tokens, every count of the stated number of digits, every depth and number of groups up to the limits, every pair of names of the stated length', 'Tests try a dozen errors; a limit that is off by one, or a rule that is forgotten after a particular neighbour, is not among them.', RXF,
   [('RxCompiler::scanRegex', 'rx/rxcompile.cpp'), ('first_pass', 'rx/rxcompile.cpp')], 'result of compile(), error message and offset, against a recogniser')
P_('G01', 'Guarded text pointers move like pointers but never leave the text',
   'Whatever sequence of increments, decrements, additions, subtractions, copies and assignments is applied, a NUL-guarded pointer never passes the NUL, a guarded pointer also never backs up before its origin, and each stops exactly there; otherwise it is where a plain pointer over bytes, or over whole UTF-8 characters, would be, and yields the byte or character there. at_eof and at_bot are true exactly at the ends.',
   [I, H], 'every text of the stated length, valid or corrupt, every origin in it, every sequence of the stated number of operations with every count', 'The test of the pointers stays within a twelve character text.', ['include/char_ptr.h', 'include/utf8_ptr.h', 'include/char_encoding.h'],
   [('GuardedCharPtr', 'include/char_ptr.h'), ('GuardedUTF8Ptr', 'include/utf8_ptr.h')], 'address held, character yielded, at_eof and at_bot after each operation')
TN = 'Switches between threads at every synchronisation operation and atomic access; a vector-clock race check over all other accesses, respecting the memory order given to each atomic, shows that finer switching cannot differ.'
P_('R01', 'Reference counting keeps every object alive exactly as long as it is referred to',
   'A counted object lives while at least one reference to it exists and is destroyed exactly once, when the last goes: by assignment of another reference, of a pointer, of null or of itself, by a reference going out of scope, or with the object that held it - also when the assignment is made from inside the object it releases. Unshare gives the caller an object no other refers to, with the same content, and leaves every other holder with the original. No reference ever yields another object than the one assigned.',
   [I, H], 'every sequence of the stated number of operations over three references and objects that refer to each other without cycles', 'Tests copy and drop a few strings; self-assignment and chains that release one another show only in particular orders.', ['include/refcount.h'],
   [('Ref', 'include/refcount.h'), ('RefCounted::Release', 'include/refcount.h')], 'object reached by each reference, destructions, memory errors, allocation balance', state='reference count of each object')
P_('R02', 'Strings, arrays and maps that share contents may be used by different threads',
   'Different threads may each use their own value - copy, read, slice, edit or drop it - while those values share the same contents, without any locking: every thread sees exactly its own value as if it were alone, no data race occurs, no thread reads contents another has released or is changing, and the shared contents are released exactly once, whichever thread is last.',
   [I, H, S], 'two threads and the thread that made the values, any operations of the stated list on strings, arrays and maps, every interleaving within the stated number of preemptions', 'The threads of a test meet in one order; losing the last reference between two checks takes a particular one.', ['include/refcount.h', 'include/strval.h', 'include/array.h', 'include/cowmap.h'],
   [('RefCounted', 'include/refcount.h'), ('Unshare', 'include/strval.h'), ('Unshare', 'include/array.h')], 'contents of each value, data races, use after release, allocation balance', TN, state='reference count shared between threads')
P_('X05', 'A compiled expression may be matched by different threads at once',
   'Different threads may match one RxProgram at the same time, without locking, on texts of their own that may share contents: each gets the result - success, extent, captures, group names - it would get alone, and there is no data race. Results may be copied from one thread to another and each copy read, changed and dropped by its thread without any other copy changing; everything is released exactly once.',
   [I, S], 'two threads, each matching any of the expressions listed from any offset on every text of the stated length, or using its copy of a result, every interleaving within the stated number of preemptions', 'No test matches from more than one thread.', RXF + ['include/refcount.h', 'include/strval.h'],
   [('RxProgram::matchAt', 'rx/rxmatch.cpp'), ('RxMatch', 'rx/rxmatch.cpp'), ('RxResult::Unshare', 'rx/rxmatch.cpp')], 'results against a program and text of its own, data races, use after release, allocation balance', TN, state='captures shared between results')
P_('T01', 'A latch is held by at most one thread, and its operations tell the truth',
   'At most one thread holds a Latch at a time, and everything a holder wrote before leave() is seen by the next holder. probe() gains the latch if and only if it is free, and never blocks; enter() waits and then has it; holding() is true exactly for the thread that has it and does not change who has it. A latch that was left can be had again. Entering a latch already held by the caller, or leaving one it does not hold, stops with a failed assertion.',
   [I, S], 'two or three threads doing any of the operations, every interleaving within the stated number of preemptions', 'No test uses a latch; a failure of exclusion needs a particular interleaving.', ['include/lockfree.h', 'src/lockfree.cpp'],
   [('Latch', 'include/lockfree.h')], 'who is inside, data written under the latch, data races, deadlock, failed assertions', TN)
P_('T02', 'Threads run once, and joining returns each finished thread exactly once',
   'A Thread that is started runs its run() exactly once; inside it current() is that Thread, and in the thread the program started with current() is main(). join() returns only when that run() is over, with everything it wrote visible. joinAny() returns each thread started and not joined exactly once, after it ended, waiting if need be, and null when there is none - never losing one that ended earlier or was started by another thread. A joined thread may be destroyed and its memory and system identity used again without being taken for another; its system resources are released.',
   [I, H, S], 'every sequence of the stated number of start, join, joinAny and destroy steps from the main thread, with threads that start threads, every interleaving within the stated number of preemptions', 'No test starts a Thread; identities are reused and endings missed only in particular schedules.', ['include/thread.h', 'src/thread.cpp', 'include/condition.h', 'src/condition.cpp', 'include/lockfree.h'],
   [('Thread::joinAny', 'src/thread.cpp'), ('Thread::join', 'src/thread.cpp'), ('Thread::resume', 'include/thread.h')], 'thread returned, runs counted, data written by run(), threads registered, data races, deadlock', TN, state='map of threads by system identity, count of ended threads')
P_('T03', 'Condition waits give up the latch, lose no wakeup, and time out when asked',
   'wait() on a Condition releases the latch while it waits and holds it again when it returns, missing no signal or broadcast made after it released the latch. signal() wakes a waiting thread if there is one, broadcast() wakes all. A wait with a delay of so many milliseconds gives up only when that time from now has passed, then reports no time left; if it was signalled it returns earlier.',
   [I, S], 'up to three waiting threads, signals and broadcasts inside and outside the latch, every interleaving within the stated number of preemptions; nine delays at every time of day', 'No test waits on a condition; lost wakeups need a particular interleaving, and carries in the deadline a particular time of day.', ['include/condition.h', 'src/condition.cpp', 'include/lockfree.h'],
   [('Condition::wait', 'src/condition.cpp'), ('Condition::broadcast', 'src/condition.cpp')], 'threads woken, items taken, latch held, deadline asked of the system, deadlock', TN)
