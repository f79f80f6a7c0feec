"""The properties, and how each is decided: the only source of properties.jsonl and MANIFEST.json (gen.py)."""

READ_COUNTS = ('states: distinct (options, input) nodes of the input tree that were visited; transitions: input bytes (and end of input) '
               'stepped through by both the reference reader and the real reader; traces: executions of the real reader compared with the reference')
READ_FILES = ['src/streamConsumer.cpp', 'src/unicode.cpp', 'src/jsonObject.cpp', 'src/jsonArray.cpp', 'src/jsonContainer.cpp', 'src/jsonPrimitive.cpp']
READ_NOTE = ('Bounded-exhaustive: every input of the stated trees is run through the real reader (ASan+UBSan, uninitialized locals poisoned) and compared with an independent '
             'reference reader written from RFC 8259; nothing is claimed for longer or other inputs. Trusted: the reference reader, the compiler.')
NO_SAMPLING = 'the input tree is enumerated completely within its depth (no sampling); a subtree is only cut below a prefix the reference reader proves dead'

PROPS = {}


def prop(ident, **k):
    PROPS[ident] = k


prop('P01', harness='h_parse', title='Valid JSON is read as the document it denotes',
     statement='Every valid JSON document is accepted and read as exactly the value it denotes: same structure, same element order in arrays, same member set in objects, '
               'same booleans and nulls, strings with the same characters, and numbers with the same exact decimal value whatever their length or exponent. '
               'Insignificant white space (space, tab, CR, LF) between tokens never changes what is read, and no warning is emitted.',
     over=['inputs', 'configurations'], quant='all valid JSON documents (RFC 8259), including bare scalars at the root',
     tests='The tests read a dozen literal documents; they cannot cover the combinations of tokens, nesting, white space and number forms.',
     files=READ_FILES, mech=[('consumeToken/readObject/readArray', 'src/streamConsumer.cpp'), ('consumeNumber, doubleFromString', 'src/streamConsumer.cpp'), ('containers', 'src/jsonObject.cpp, src/jsonArray.cpp')],
     observe=['StreamConsumer::getRoot() and the tree below'],
     space='all token/byte sequences over 10 alphabets up to a depth, extended while the reference reader says the prefix is viable; sizes 0..N of 40+ shapes, and around powers of two up to 65536; 1900 boundary numbers in 3 contexts; every tree shape of N values (containers with or without members, arrays or objects, in every combination); all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 4-7 tokens (after the context prefix), sizes up to 140, trees of 7 values', 'thorough': 'depth 6-9 tokens, sizes up to 400, trees of 8 values'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P02', harness='h_parse', title='Malformed JSON is never accepted',
     statement='Without -W, an input that is not a JSON document is never displayed as one: a structural error (missing or misplaced separator, bracket, key or value), a bad literal, number, escape or '
               'hexadecimal digit, an upper-case literal, or an input that ends too early is always reported as an error. '
               'Not covered, because the reader documents or tolerates them: leading zeros and missing digits around a decimal point, raw control characters inside strings, '
               'bytes outside printable ASCII between tokens, unpaired surrogates, and whatever follows a complete root value.',
     over=['inputs', 'configurations'], quant='all byte strings which are not JSON documents (but for the listed tolerances), sorted or not',
     tests='The tests check a handful of malformed inputs; the ways to be malformed are a product of position, token and context.',
     files=READ_FILES, mech=[('separator and key checks', 'src/streamConsumer.cpp readObject/readArray'), ('literal and number scanners', 'src/streamConsumer.cpp'), ('hexbyte', 'include/unicode.hpp')],
     observe=['exception or missing root'],
     space='as P01 with the prefixes that just became invalid and what follows them, every first byte and chosen second bytes in 21 contexts, truncated and oversized shapes; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 4-7 tokens, 2 raw bytes after 21 contexts (second byte from 40 classes)', 'thorough': 'depth 6-9 tokens, all pairs of raw bytes'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P03', harness='h_parse', title='Reading any bytes ends with a result or a reported error',
     statement='Whatever bytes it is given and whatever the options, reading ends, and ends with a document, a reported error or an end-of-input error: '
               'never a crash, an uncaught exception, an invalid memory access, a use of an uninitialized value or an endless loop.',
     over=['inputs', 'configurations'], quant='all byte strings, with and without -W and --ascii (nesting limited by the stack)',
     tests='The tests only feed well chosen inputs, without memory checking.',
     files=READ_FILES + ['include/wrappedBuffer.hpp', 'src/linearHistory.cpp'], mech=[('end of file handling', 'src/streamConsumer.cpp getChar/ungetChar'), ('history buffer', 'src/linearHistory.cpp')],
     observe=['process state under ASan/UBSan'],
     space='as P02, in 4 option sets; all 3-byte strings in thorough; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 4-7 tokens, 2 raw bytes after 21 contexts', 'thorough': 'depth 5-8 tokens, all pairs of raw bytes after 21 contexts, all 3-byte inputs'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader under sanitizers', note=READ_NOTE)

prop('P04', harness='h_parse', title='Errors and warnings designate where the input is wrong',
     statement='The position given with an error or a warning is that of a character which had been read: its line is one more than the number of line ends (LF, CR or CR LF) before it, its column is the number of '
               'characters read on this line, and the excerpt is the end of that line up to it (at most 45 characters). '
               'For a malformed input, that character lies between the first one which makes it malformed and the end of the token it is in (plus one character read ahead); warnings come in input order.',
     over=['inputs', 'configurations'], quant='all refused inputs, and all inputs accepted with warnings, with any mix of line endings and line lengths',
     tests='The tests check no position beyond a few single-line cases.',
     files=['src/streamConsumer.cpp', 'src/linearHistory.cpp', 'include/wrappedBuffer.hpp', 'src/jsonException.cpp', 'src/warning.cpp'], mech=[('line and column history', 'src/linearHistory.cpp'), ('give back of the character read ahead', 'src/streamConsumer.cpp ungetChar')],
     observe=['JsonException::currentLine/currentCol/getHistory'],
     space='all sequences over alphabets with line endings, and shapes with 0..N characters before and after each of 6 line endings; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 4-7 tokens, lines up to 140 characters', 'thorough': 'depth 6-9 tokens, lines up to 400 characters'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P05', harness='h_parse', title='Escaped characters of strings are shown as the character they denote',
     statement='Without --ascii, every \\uXXXX escape (and surrogate pair) of a string is shown as the UTF-8 character it denotes, \\" and \\/ are shown as the bare character, and the other '
               'escapes (\\\\ \\b \\f \\n \\r \\t) are shown unchanged; a \\u escape denoting a backslash or a control character is shown as an escape of that same character. '
               'All other characters are shown unchanged.',
     over=['inputs'], quant='all strings made of any characters and escapes: every code unit and every surrogate pair',
     tests='The tests decode a few code points.',
     files=['src/streamConsumer.cpp', 'src/unicode.cpp', 'include/unicode.hpp'], mech=[('consumeEscapedChar, appendUnicode', 'src/streamConsumer.cpp'), ('hexbyte', 'include/unicode.hpp')],
     observe=['stringify() of string elements'],
     space='all 65536 \\uXXXX escapes (lower and upper case), surrogate pairs, all sequences of escapes up to a depth; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'every code unit; pairs: every high and every low surrogate, 60000 combinations; sequences of 3-5 tokens', 'thorough': 'all 1048576 pairs; sequences of 4-7 tokens'},
     counts=READ_COUNTS, technique='exhaustive enumeration of escapes through the real reader against a reference decoder', note=READ_NOTE)

prop('P06', harness='h_parse', title='--ascii keeps unicode escapes as they are',
     statement='With --ascii, a valid document is accepted and every \\uXXXX escape of its strings is kept as it was written, all other characters and escapes being shown as without --ascii; the document read is the same.',
     over=['inputs', 'configurations'], quant='all strings made of any characters and valid escapes',
     tests='The tests do not read with --ascii but for a couple of strings.',
     files=['src/streamConsumer.cpp'], mech=[('consumeEscapedChar', 'src/streamConsumer.cpp')], observe=['stringify() of string elements'],
     space='all 65536 \\uXXXX escapes (lower and upper case), all sequences of escapes up to a depth; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'every code unit; sequences of 3-5 tokens', 'thorough': 'sequences of 4-7 tokens'},
     counts=READ_COUNTS, technique='exhaustive enumeration of escapes through the real reader against a reference decoder', note=READ_NOTE)

prop('P07', harness='h_parse', title='Objects are sorted by key, or keep the order of the document',
     statement='By default the members of every object are in ascending order of their keys (byte-wise order of the text of the key); with --keep-order they are in document order. Either way each member keeps its own value, at any depth.',
     over=['inputs', 'configurations'], quant='all objects with distinct keys, any order and nesting',
     tests='The tests sort one or two objects.',
     files=['src/jsonObject.cpp', 'src/streamConsumer.cpp', 'include/fifoMap.hpp'], mech=[('JSonSortedObject::push', 'src/jsonObject.cpp'), ('choice of the kind of object', 'src/streamConsumer.cpp readObject')], observe=['iteration over the object'],
     space='all sequences of members over 10 keys (prefixes of one another, empty, escaped, non-ASCII) and nested objects; objects of up to N members; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents; all sequences of members from a pool of keys, all permutations of 6 members, keys of 1 to 70 characters which differ by one',
     bounds={'quick': 'up to 7 tokens, up to 140 members', 'thorough': 'up to 9 tokens, up to 400 members'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P08', harness='h_parse', title='Duplicate keys are an error, or a warning with -W where the last wins',
     statement='A key that appears twice in the same object (however it is escaped) is refused as a double key, and never silently merged. '
               'With -W it is accepted with exactly one warning per repetition, and the object has the last value of the key at the place of the last occurrence; equal keys in different objects are not duplicates.',
     over=['inputs', 'configurations'], quant='all objects with repeated keys, with and without -W, sorted or in document order',
     tests='One test has one duplicate.',
     files=['src/streamConsumer.cpp', 'src/jsonObject.cpp'], mech=[('double key check', 'src/streamConsumer.cpp readObject'), ('contains/erase', 'src/jsonObject.cpp')], observe=['exception, warnings and tree'],
     space='all sequences of members with repeated keys (also nested and escaped) in the 4 option sets; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents; all sequences of members from a pool of keys, all permutations of 6 members, keys of 1 to 70 characters which differ by one',
     bounds={'quick': 'up to 7 tokens, up to 140 members', 'thorough': 'up to 9 tokens, up to 400 members'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P09', harness='h_parse', title='-W accepts exactly the documented leniencies, each with one warning',
     statement='With -W, literals in any case, unknown escapes (kept with their backslash) and duplicate keys are accepted, each occurrence with exactly one warning, and everything else that is malformed is still refused; '
               'a valid document never causes a warning. Without -W all of them are refused.',
     over=['inputs', 'configurations'], quant='all inputs mixing leniencies, valid and malformed tokens',
     tests='A few tests use one leniency each.',
     files=['src/streamConsumer.cpp'], mech=[('consumeBool, consumeNull, consumeEscapedChar', 'src/streamConsumer.cpp')], observe=['StreamConsumer::getMessages(), tree or exception'],
     space='all sequences over an alphabet of lenient, valid and invalid tokens, and all casings of literals; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 5-6', 'thorough': 'depth 7-8'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader against a reference reader', note=READ_NOTE)

prop('P10', harness='h_parse', title='Elements of a document are linked consistently',
     statement='In every document that was read, each element knows its parent and its depth, the previous and next elements of the same container, and, for the last element of a container, '
               'the element which follows the container (none at the end of the document); the first child of a container is its first element.',
     over=['inputs', 'configurations'], quant='all documents, sorted or in document order',
     tests='The tests check links of one document.',
     files=['src/jsonElement.cpp', 'src/jsonContainer.cpp', 'src/streamConsumer.cpp'], mech=[('findPrev/findNext/getLevel', 'src/jsonElement.cpp'), ('setParent', 'src/streamConsumer.cpp')], observe=['JSonElement::getParent/findPrev/findNext/getLevel'],
     space='all documents over 3 alphabets and nested shapes; every tree shape of N values (arrays or objects, in every combination); all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents', bounds={'quick': 'depth 6-7, trees of 8 values', 'thorough': 'depth 8-9, trees of 9 values'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration of the real reader, links checked on every tree', note=READ_NOTE)

OUT_FILES = ['src/simpleOutput.cpp', 'src/jsonPrimitive.cpp', 'src/streamConsumer.cpp']
prop('P11', harness='h_parse', title='Redirected output is the same document, as valid JSON',
     statement='For every valid document, what is written when output is redirected (pretty or --compress, sorted or not, with --ascii or not) is itself valid JSON denoting the same value, '
               'with members in the displayed order and numbers with the same exact value. Reading that output again succeeds and writes the very same bytes.',
     over=['inputs', 'configurations'], quant='all valid documents, in all output modes',
     tests='The tests never write a document.', files=OUT_FILES, mech=[('SimpleOutput::write*', 'src/simpleOutput.cpp'), ('escapeQuotes', 'src/simpleOutput.cpp')], observe=['bytes written'],
     space='all documents over 7 alphabets (tokens, escapes, surrogates, keys, numbers), sizes 0..N of 40+ shapes, boundary numbers, \\u escapes, every tree shape of N values; each printed in both modes, parsed by the reference reader, read again and printed again; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents',
     bounds={'quick': 'depth 4-7 tokens, sizes up to 140, every 16th code unit (all below U+1000), trees of 7 values', 'thorough': 'depth 6-9 tokens, sizes up to 400, every code unit, trees of 8 values'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration, round trip of the real printer through a reference reader', note=READ_NOTE)

prop('P12', harness='h_parse', title='Pretty and compressed output differ only in white space',
     statement='For every valid document, --compress writes no white space outside of strings, and pretty output is that same text plus white space. '
               'In pretty output every value, key or bracket is on its own line (a key may be followed by its scalar value), indented by four spaces per level of nesting, closing brackets being aligned with the opening ones.',
     over=['inputs', 'configurations'], quant='all valid documents',
     tests='The tests never write a document.', files=OUT_FILES, mech=[('getIndent', 'src/simpleOutput.cpp'), ('compressed()', 'src/params.cpp')], observe=['bytes written'],
     space='all documents over 5 alphabets, sizes 0..N of 40+ shapes, every tree shape of N values, and around powers of two up to 65536; all single edits (one of 65 strings inserted or put instead of a character, a cut, 1 to 5 characters removed, repeated or swapped) of 24 documents', bounds={'quick': 'depth 4-7 tokens, sizes up to 140, trees of 7 values', 'thorough': 'depth 6-9 tokens, sizes up to 400, trees of 8 values'},
     counts=READ_COUNTS, technique='exhaustive input-tree exploration, layout automaton over the real output', note=READ_NOTE)

CLI_FILES = ['src/main.cpp', 'src/params.cpp', 'src/diffCmd.cpp', 'include/fifoMap.hpp', 'src/simpleOutput.cpp']
CLI_NOTE = ('Bounded-exhaustive: the whole program (real main(), ASan+UBSan) runs in a child process for every case, as an unprivileged user in a scratch directory; terminal, fork, wait and open answers are '
            'decided by the harness (ld --wrap). Trusted: the reference command-line interpreter and reference reader; calls the harness does not intercept get real answers.')
CLI_COUNTS = 'states: distinct final states of the program which were observed (output, messages, status, what the command received); transitions: command-line words and inputs stepped through, or files created, processes started, waits and arguments received which were compared; traces: complete executions of the program (one for each command line, inputs and environment) compared with the reference'
prop('P13', harness='h_cli', states='observed', title='The command line decides what is read and how it is displayed',
     statement='Options and file names may come in any order: -W, --ascii, --keep-order and --compress act on all inputs, whatever follows "--" is joined by single spaces and read as an input, without file nor "--" standard input is read, '
               '--help and --version print their text and stop, and an unknown option, an unreadable file, a file given twice or an incomplete --diff-cmd is refused with the usage, a message and a failure status. '
               'An external command is run for --diff-cmd, the comparison is shown for --diff with 2 or 3 inputs (refused for any other number), otherwise the viewer is started only if output is a terminal and --compress is not given, '
               'and documents are written to the output in all other cases.',
     over=['configurations', 'inputs'], quant='all command lines made of options, files, words and commands, output being a terminal or not',
     tests='The tests never parse a command line.', files=CLI_FILES, mech=[('Params::read', 'src/params.cpp'), ('main', 'src/main.cpp')], observe=['exit status, output, messages, viewer started, command run'],
     space='all sequences of words over a 27-word alphabet (every option, files which are valid, lenient, malformed or missing, --, --diff-cmd with its command, {} and ;) in both terminal settings; all pairs of 25 words given to a command (single words in quick), 46 misspelt options in 4 positions; all sets of 5 options with up to 5 files, --diff anywhere, commands of up to 6 words, once or twice',
     bounds={'quick': 'up to 3 words of 27 (redirected) or 2 words and 12 more (terminal), 4 words of 14 after --diff-cmd (and after --compress in a terminal), and a string cut into up to 5 words of 11 after --', 'thorough': 'up to 4 words, a string cut into up to 6 words'},
     counts=CLI_COUNTS, technique='exhaustive enumeration of command lines through the real program against a reference interpreter', note=CLI_NOTE)

prop('P14', harness='h_cli', states='observed', title='Inputs are displayed in order, up to the first which cannot be read',
     statement='When output is redirected, the documents of all inputs (files in the order given, standard input, or the text after "--") are written one after the other, up to the first input which cannot be read; '
               'that one gives exactly one error message, which names it, and nothing more is displayed. Warnings of the inputs displayed are all reported, each naming its input, in order; '
               'each message with a position is followed by the excerpt and a mark below its last character, and input files are never modified.',
     over=['inputs', 'configurations'], quant='all sequences of valid, lenient, malformed, truncated and empty inputs, from any source, with all option sets',
     tests='The tests never run the program.', files=CLI_FILES, mech=[('runStdout, readOneFile, displayException', 'src/main.cpp')], observe=['output and messages'],
     space='all sequences of inputs over 8 documents, from 4 sources, in 16 option sets; mistakes of 7 kinds after any number of characters; all sequences of files with unusual names', bounds={'quick': 'up to 3 inputs, mistakes after up to 160 characters', 'thorough': 'up to 4 inputs'},
     counts=CLI_COUNTS, technique='exhaustive enumeration of input sequences through the real program against a reference', note=CLI_NOTE)

prop('P15', harness='h_cli', states='observed', title='The external command gets one file per input, with its document',
     statement='The command of --diff-cmd is run exactly once, if and only if all inputs could be read, with its arguments unchanged but each "{}" argument, which is replaced by one file per input, in order. '
               'Each file holds the document of its own input as written with the same options when output is redirected; files are distinct, are never files which existed before, and are all removed at the end. Input files are never modified, and warnings and errors on inputs are reported.',
     over=['inputs', 'configurations'], quant='all command templates, numbers and kinds of inputs, input names, option sets, and names of temporary files already in use',
     tests='The tests never run a command.', files=['src/main.cpp', 'src/diffCmd.cpp', 'src/params.cpp'], mech=[('computeArgv', 'src/diffCmd.cpp'), ('getOutputFile, doRunExternalDiff', 'src/main.cpp')], observe=['arguments and files as seen by the command, files left'],
     space='all argument templates over 16 words (6 with options or other inputs), 11 input sets (same tails, same base names, standard input, malformed, large), 16 option sets, with temporary names already in use or not',
     bounds={'quick': 'up to 3 arguments', 'thorough': 'up to 4 arguments'},
     counts=CLI_COUNTS, technique='exhaustive enumeration of configurations through the real program, observed by the command it runs', note=CLI_NOTE)

prop('P16', harness='h_cli', states='observed', title='External comparison survives failures of its environment',
     statement='Whatever fails while preparing, starting or waiting for the external command (creating or writing a temporary file, starting a process, an unusable command, interrupted waits, a command killed by a signal or failing), '
               'the program ends, without a crash, and no temporary file is left. The command is not started unless all files are complete; if it is not started or cannot be executed a message is displayed, and files are never removed before it ends.',
     over=['fault_sequences', 'inputs'], quant='all sequences of failures of file creation, writes (at any byte), fork, exec and wait',
     tests='The tests never run a command.', files=['src/main.cpp', 'src/diffCmd.cpp'], mech=[('doRunExternalDiff, runExternalDiff', 'src/main.cpp')], observe=['files left, command runs, messages, end of the program'],
     space='for each of 11 input sets, every fault of a catalogue (creation n failing with 6 errors, once or for ever, names in use, fork, exec, wait, signals, file size limit at every byte), alone and in pairs',
     bounds={'quick': '1 deviation, and a third of the pairs of different kinds', 'thorough': 'all pairs of different kinds, every byte of a write'},
     counts=CLI_COUNTS, technique='exhaustive fault enumeration (deviation-bounded) on the real program', note=CLI_NOTE)

prop('P18', harness='h_search', title='A search matches exactly the elements its pattern and flags designate',
     statement='A search input is PATTERN or PATTERN/FLAGS (leading blanks ignored, "\\/" standing for a slash). Without flags it matches the strings, numbers, booleans, nulls and object keys whose displayed text contains PATTERN (a tab in the text counting as a space); '
               'flag i ignores the case of ASCII letters, f requires the whole text, w requires whole words (delimited by blanks or the ends of the text), e makes PATTERN an ECMAScript regular expression, '
               'and b, n, s, o (the last one wins) restrict the search to booleans, numbers, strings or object keys; unknown flags are ignored and an empty pattern is not searched.',
     over=['inputs'], quant='all search inputs and all texts (not covered: a lone backslash at the end of the input, a tab in PATTERN, e together with f or w)',
     tests='The tests check a few patterns without combining flags.',
     files=['src/searchPattern.cpp', 'src/jsonPrimitive.cpp', 'src/jsonObjectEntry.cpp', 'src/jsonContainer.cpp'], mech=[('SearchPattern', 'src/searchPattern.cpp'), ('match', 'src/jsonPrimitive.cpp, src/jsonObjectEntry.cpp')], observe=['JSonElement::match'],
     space='all inputs over 3 alphabets (letters and blanks in the 112 sets of flags; every way to place separators, escapes and flags; regular expressions; numbers and literals in every set of flags), each matched against every text up to 4 characters over 3 and 40 more, as string, key, number, boolean and null',
     bounds={'quick': 'patterns up to 3 to 5 tokens', 'thorough': 'patterns up to 4 to 6 tokens, texts up to 5 characters'},
     states='observed', counts='states: distinct sets of matching elements and flags which were observed; transitions: (input, element) pairs evaluated by both the reference and the real matcher; traces: search inputs evaluated by the real code and compared',
     technique='exhaustive enumeration of search inputs through the real matcher against a reference interpreter',
     note='Bounded-exhaustive on the real code (ASan+UBSan). Trusted: the reference interpretation, std::regex. Regular expressions on which std::regex does not end ("**") are left out.')

TUI_FILES = ['src/curseSimpleOutput.cpp', 'src/curseOutput.cpp']
TUI_NOTE = ('Explicit-state exploration of the real viewer: the real run() executes (ASan+UBSan) against a real curses library whose keyboard, size and signals are decided by the explorer; '
            'at each wait for a key the whole screen is compared with a reference model. Trusted: the reference model, ncurses. The harness links the wide-character ncurses. '
            'Not judged: the last cell of the last line, the attributes of ": ", messages after a key without effect.')
TUI_COUNTS = ('states: distinct (reference state, screen) pairs reached; transitions: keys and events handled by the real viewer, each compared with the reference model; '
              'traces: runs of the real viewer (each restarts from the first display)')
TUI_TECH = 'explicit-state exploration of the real viewer, to a fixed point, against a reference model'


def tui(ident, **k):
    prop(ident, harness='h_tui', files=k.pop('files', []) + TUI_FILES, note=TUI_NOTE, counts=TUI_COUNTS, technique=k.pop('technique', TUI_TECH), observe=k.pop('observe', ['screen at each wait for a key']), **k)


tui('P19', title='The viewer shows the document, wrapped and indented, in full',
    statement='Below the name of the input, the viewer always shows consecutive lines of the indented document (one element, key or bracket per line, four more columns per level, two for the content of a container below its key; '
              'folded containers as "[ ... ]" or "{ ... }"), starting at the beginning of a line; lines wider than the screen continue on the next ones, no character being lost, duplicated or out of place, and the rest of the screen is blank. '
              'The selected element, and nothing else, is highlighted; with colors, strings, numbers, other scalars and keys have their own color.',
    over=['inputs', 'configurations', 'histories'], quant='all documents, screen sizes (from 3 lines), scroll positions and folds',
    tests='The tests never start the viewer.', mech=[('redraw, writeContainer, writeKey, writeContent', 'src/curseSimpleOutput.cpp'), ('write, getNbLines', 'src/curseOutput.cpp')],
    space='all the ordered trees up to 4 values with short and long texts, and 15 documents (deep, wide, long or non-ASCII texts, empty containers), at up to 30 sizes, with and without colors and sorting; texts and keys of 1 to 131 characters of 1, 2 or 3 bytes; all sequences of DOWN, NEXT, FOLD',
    bounds={'quick': 'trees of up to 4 values', 'thorough': 'trees of up to 5 values'})
tui('P20', title='Moving keys move the selection as in the document, and keep it visible',
    statement='UP and DOWN select the previous and next displayed element, PAGE UP the previous element of the same container or else the container, PAGE DOWN the element following the content of the selected one, '
              'RIGHT the first element of an unfolded container, LEFT the container of a scalar, empty or folded element; at the ends nothing changes. j, k, l, h (or upper case) act as the arrows, and '
              'the first line of the selected element is always on the screen, whatever the length of lines and the size of the screen.',
    over=['inputs', 'histories', 'configurations'], quant='all documents, sizes, and sequences of keys',
    tests='The tests never start the viewer.', mech=[('selectUp, selectDown, selectPUp, selectPDown, redraw scrolling', 'src/curseSimpleOutput.cpp')],
    space='all the ordered trees up to 4 values at 3 sizes, and 15 documents at 10 sizes; all sequences of moving keys',
    bounds={'quick': 'trees of up to 4 values', 'thorough': 'trees of up to 5 values'})
tui('P21', title='Folding hides exactly the content of the element',
    statement='LEFT on an unfolded, non-empty container folds it: its content is replaced by "[ ... ]" or "{ ... }", is not selectable, and everything else stays; RIGHT unfolds it, its inner containers being folded as they were before. '
              'The set of folded containers changes in no other way, but for a search result inside of folded containers, which unfolds them.',
    over=['inputs', 'histories'], quant='all documents and sequences of keys',
    tests='The tests never start the viewer.', mech=[('expandSelection, collapseSelection, collapsed', 'src/curseSimpleOutput.cpp')],
    space='all the ordered trees up to 5 values; all sequences of DOWN, PAGE DOWN, RIGHT and LEFT', bounds={'quick': 'trees of up to 5 values', 'thorough': 'trees of up to 6 values'})
tui('P22', title='Searching selects every matching element in turn',
    statement='A valid search replaces the results of the previous one with all the matching elements of the document (folded or not), and selects the first of them after the selection, as n does afterwards; '
              'after the last one it goes on with the first, telling "Search hit BOTTOM, continuing at TOP", and without a result it tells "Pattern not found". The result is unfolded and made visible, and results are displayed in their own color. '
              'An invalid regular expression is told, the previous results being kept; an empty search clears them; an escape (\\uXXXX) in a pattern denotes its character, except with --ascii.',
    over=['inputs', 'histories'], quant='all documents, patterns, selections, folds and sequences of searches',
    tests='The tests never start the viewer.', files=['src/searchPattern.cpp'], mech=[('initSearch, nextResult, jumpToNextSearch, unfold', 'src/curseSimpleOutput.cpp'), ('inputResult', 'src/curseOutput.cpp')],
    space='all the ordered trees up to 4 values with 2 patterns, 6 documents at 3 heights with 13 searches, 2 documents with 10 searches holding escapes, with and without --ascii; all sequences of searches, n, moves and folds', bounds={'quick': 'trees of up to 4 values', 'thorough': 'trees of up to 5 values'})
tui('P23', title='The viewer never fails, whatever is typed and whatever the terminal size',
    statement='Whatever the document, the keys or bytes typed, the size of the terminal (down to one line or one column) and the moment at which SIGINT or SIGTERM comes, the viewer keeps waiting for keys, without a crash or an endless loop, '
              'until q (or one of these signals), which ends it and gives the terminal back; no other key ends it.',
    over=['inputs', 'histories', 'configurations', 'schedules'], quant='all documents, sizes, sequences of keys, and points at which a signal comes',
    tests='The tests never start the viewer.', observe=['screen, end of the viewer'], mech=[('readKey, getKey', 'src/curseOutput.cpp'), ('getScreenSize, redraw', 'src/curseSimpleOutput.cpp'), ('signal handlers', 'src/curseOutput.cpp')],
    space='every byte and function key in every state of 2 documents at 3 sizes, also typed in the prompt and after a prefix; 15 documents at up to 18 tiny sizes with moves, resizes and searches; both signals in 8 modes, and SIGTERM at each call to the terminal library of the first display',
    bounds={'quick': '13 tiny sizes, one character at the prompt', 'thorough': '18 tiny sizes, one character at the prompt, also searched'})
tui('P24', title='Resizing the terminal redraws everything, keeping the state of the viewer',
    statement='When the size of the terminal changes (or the viewer is resumed), at any moment, even while something is being displayed, the whole screen is displayed again for the new size, '
              'with the same selection (visible), folded containers, search results and text typed at the prompt.',
    over=['histories', 'schedules', 'configurations'], quant='all documents, states, sequences of sizes, and points of the display at which the signal comes',
    tests='The tests never start the viewer.', mech=[('signal handler, resize', 'src/curseOutput.cpp'), ('getScreenSize', 'src/curseSimpleOutput.cpp')],
    space='all the ordered trees up to 4 values and 15 documents with moves, folds, searches and 4 sizes in any order; SIGWINCH at each of the first 24 calls to the terminal library of the display following each of 6 keys', bounds={'quick': 'trees of up to 4 values', 'thorough': 'trees of up to 5 values'})
tui('P33', title='The search prompt shows and uses exactly what is typed',
    statement='At the search prompt, typed characters (of any length in UTF-8) are appended and shown after "/", BACKSPACE removes the last character, ENTER searches for exactly what is shown and ESC leaves without searching; '
              'moving keys have no effect there, and the document comes back on the last line afterwards.',
    over=['inputs', 'histories'], quant='all sequences of keys at the prompt',
    tests='The tests never start the viewer.', mech=[('search, writeBottomLine', 'src/curseSimpleOutput.cpp, src/curseOutput.cpp')],
    space='all sequences of printable keys (ASCII, UTF-8 of 2 and 3 bytes, separators), editing and ending keys and timeouts, on 2 documents at 2 sizes', bounds={'quick': 'up to 5 bytes typed', 'thorough': 'up to 7 bytes typed'})

prop('P31', harness='h_buf', states='observed', title='The input history gives the line, column and end of the current line',
     statement='Whatever the sequence of characters put (alone or in blocks), taken back and reset, a history buffer of size N holds exactly the last N characters which remain, in order, and their exact total count; '
               'the history of the input tells the number of the line of the last character (LF, CR and CR LF each ending one line), its column and the end of that line.',
     over=['histories'], quant='all sequences of operations, for all buffer sizes',
     tests='The tests use a few sequences.', files=['include/wrappedBuffer.hpp', 'src/linearHistory.cpp', 'include/linearHistory.hh'], mech=[('put, pop_back, toString', 'include/wrappedBuffer.hpp'), ('line counting', 'src/linearHistory.cpp')],
     observe=['WrappedBuffer and LinearHistory after each operation'],
     space='all sequences of 6 operations (put 1, 2, 3 or 5 characters, take one back, reset) on buffers of size 1, 2, 3, 4 and 6; all sequences of 5 operations (characters, LF, CR, take back) on the history',
     bounds={'quick': '7 operations on buffers, 8 on the history', 'thorough': '9 operations on buffers, 10 on the history'},
     counts='states: distinct contents and counts of the structure which were observed (in a hash table); transitions: operations applied to both the real structure and the reference; traces: sequences run on the real structure',
     technique='exhaustive exploration of operation sequences on the real structure against a reference', note='Bounded-exhaustive on the real code (ASan+UBSan). Trusted: the reference (a plain string).')

prop('P32', harness='h_buf', title='The similarity of two strings is their edit distance',
     statement='The distance between two strings, used to match keys and texts of compared documents, is the least number of insertions, deletions and changes of characters which turn one into the other, '
               'and the similarity is one minus this distance divided by the length of the longest (one if both are empty).',
     over=['inputs'], quant='all pairs of strings',
     tests='The tests compute a few distances.', files=['include/levenshtein.hpp'], mech=[('levenshtein', 'include/levenshtein.hpp')], observe=['levenshtein(), levenshteinPercent()'],
     space='all pairs of strings over 3 letters (and over 5 unusual ones) up to a length, pairs of long strings with the same head and tail, and of long periodic strings after a rotation or an edit',
     bounds={'quick': '5 and 7 letters, up to 120', 'thorough': '6 and 7 letters, up to 340'},
     counts='states: nodes of the graphs of edits (position in the first string, position in the second one) in which the least number of edits was computed; transitions: edits between them; traces: pairs of strings given to the real function and compared',
     technique='exhaustive enumeration of pairs of strings through the real function against the definition', note='Bounded-exhaustive on the real code (ASan+UBSan). Trusted: the recursive definition.')

DIFF_FILES = ['src/levenshtein.cpp', 'include/levenshteinMatrice.hpp', 'include/levenshtein.hpp']
DIFF_NOTE = ('Bounded-exhaustive: every pair of documents of the stated spaces is read by the real reader and compared by the real code (ASan+UBSan); the result is judged from the definition, '
             'by an independent computation of least costs. Nothing is claimed for other pairs. Trusted: the definition of costs in the harness.')
DIFF_COUNTS = 'states: distinct results (matches and marks) which were observed; transitions: elements of which the match and the mark were judged; traces: comparisons made by the real code'
DIFF_TECH = 'exhaustive enumeration of pairs of documents through the real comparison, against its definition'


def diff(ident, **k):
    prop(ident, harness='h_diff', states='observed', files=DIFF_FILES, note=DIFF_NOTE, counts=DIFF_COUNTS, technique=DIFF_TECH, observe=['LevenshteinMatrice_base::getEquivalence(), path(), get()'], **k)


diff('P25', title='Comparing a document with itself shows no difference',
     statement='When both inputs hold the same document (same text, white space aside; also with members in another order when objects are sorted), every element is matched with the same element of the other one and none is marked as different, '
               'whatever their number and depth.',
     over=['inputs', 'configurations'], quant='all documents',
     tests='The tests compare two documents.', mech=[('Builder::build, LevenshteinMatrice::build', 'src/levenshtein.cpp, include/levenshteinMatrice.hpp')],
     space='all documents up to N values over 3 scalars, or 8 scalars and other keys; all member lists over 5 keys, in every order; sizes around 127, 128, 255 and 256; nesting up to 60 levels',
     bounds={'quick': '5 values; 4 values; 4 members', 'thorough': '6 values; 5 values; 5 members'})
diff('P26', title='Every difference between two documents is marked, and only differences',
     statement='In the comparison of two documents, an element without an equivalent is always marked as added or removed; a matched value, or member with a value, is marked if its key, type or value differs from those of its equivalent (as modified, when both are of the same type), '
               'and neither a value nor anything whose whole content is the same as that of its equivalent is marked. If the documents differ at all, something is marked.',
     over=['inputs', 'configurations'], quant='all pairs of documents',
     tests='The tests compare two documents.', mech=[('addRoot, shortestPath, isModified, path, get', 'src/levenshtein.cpp, include/levenshteinMatrice.hpp')],
     space='all pairs of documents up to N values over 4, 2 and 7 scalars, all pairs of arrays and of objects of up to N scalars, long containers with one element removed, changed or inserted; containers of up to 300 elements which only one document has; long texts, numbers and keys which differ by one character',
     bounds={'quick': '3 values (4 over 2 scalars); arrays of 4-5', 'thorough': '4 values (5 over 2 scalars); arrays of 5-6'})
diff('P27', title='Matched elements correspond one to one, in order, at the least cost',
     statement='The matching of two documents is one to one, between both inputs; parents of matched elements are matched, and the children of two matched containers are matched in order. '
               'Two containers are matched only if they have something in common, and then the number of additions, removals and changes is the least possible one (texts which are more than 70% similar counting as the same element).',
     over=['inputs', 'configurations'], quant='all pairs of documents',
     tests='The tests compare two documents.', mech=[('build, shortestPath, getEquivalences', 'src/levenshtein.cpp, include/levenshteinMatrice.hpp')],
     space='as P26', bounds={'quick': '3 values (4 over 2 scalars); arrays of 4-5', 'thorough': '4 values (5 over 2 scalars); arrays of 5-6'})

SPLIT_FILES = ['src/curseSplitOutput.cpp', 'src/curseOutput.cpp']
SPLIT_NOTE = TUI_NOTE + ' What is matched and marked is taken from the real comparison (decided by P25 to P27).'


def split(ident, **k):
    prop(ident, harness='h_split', files=SPLIT_FILES, note=SPLIT_NOTE, counts=TUI_COUNTS, technique=TUI_TECH, observe=['screen at each wait for a key'], tests='The tests never start the viewer.', **k)


split('P28', title='The comparison shows both documents aligned, with their differences marked',
      statement='Each of the two windows shows, below the name of its input, consecutive lines of its indented document; matched elements start on the same line in both windows, an element without an equivalent faces lines marked "--" only, '
                'and lines wider than the window continue on the next ones, the other window being left blank there. Elements without an equivalent are marked "++" and changed ones "!!", at the start of their first line, whatever is scrolled or folded; nothing else is marked.',
      over=['inputs', 'configurations', 'histories'], quant='all pairs of documents, screen sizes, scroll positions and folds',
      mech=[('redraw, redrawOneItemToWorkingWin, isAdded', 'src/curseSplitOutput.cpp'), ('displayDiffOp, write, writeKey, writeContainer', 'src/curseSplitOutput.cpp')],
      space='all pairs of ordered trees up to 3 values at 2 sizes, and 22 pairs of documents (deep, wide, long or non-ASCII texts, scalars against containers) at 12 sizes; all sequences of DOWN, fold and change of window; pairs of texts of 1 to 131 characters of 1, 2 or 3 bytes; pairs of matched texts of 7 to 41 characters on other numbers of lines',
      bounds={'quick': 'trees of up to 3 values', 'thorough': 'trees of up to 4 values'})
split('P29', title='Both windows of a comparison keep the same selection, folds and position',
      statement='Keys act in the active window (^W w, ^W and an arrow change it) as in the viewer of one document; the equivalent of the selected element is selected in the other window, or nothing if it has none, and the selection of a window which becomes active is then the last one it had. '
                'Folding or unfolding acts on the equivalent container too; a search gives each window its own results, n going through those of the active one. The selection of the active window is always visible.',
      over=['inputs', 'histories'], quant='all pairs of documents and sequences of keys',
      mech=[('setSelection, changeWindow, expandSelection, collapseSelection', 'src/curseSplitOutput.cpp'), ('search, jumpToNextSearch', 'src/curseSplitOutput.cpp')],
      space='all pairs of ordered trees up to 2 values with all moving keys, up to 3 values with DOWN, fold and change of window, 22 pairs of documents at 2 sizes with searches, 4 pairs of nested documents with all moving keys; all sequences of these keys',
      bounds={'quick': 'all keys up to 2 values', 'thorough': 'all keys up to 3 values and on all the pairs of documents'})
split('P30', title='The comparison viewer never fails, whatever is typed and the terminal size',
      statement='Whatever the documents, the keys or bytes typed and the size of the terminal (down to one line or one column), which can change at any time, the viewer of a comparison keeps waiting for keys, without a crash or an endless loop, '
                'until q, SIGINT or SIGTERM ends it, giving the terminal back; after a change of size everything is displayed again for the new one.',
      over=['inputs', 'histories', 'configurations', 'schedules'], quant='all pairs of documents, sizes and sequences of keys',
      mech=[('getScreenSize, onResizeHandler, placement of windows', 'src/curseSplitOutput.cpp'), ('readInput, signal handler', 'src/curseOutput.cpp')],
      space='22 pairs of documents at 45 tiny sizes with moves, folds and changes of size; every byte and function key in every state of a pair of documents; changes of size at a normal size, with all the screens compared',
      bounds={'quick': 'every byte on one pair', 'thorough': 'every byte on all the small pairs'})

prop('P34', harness='h_main', title='In a terminal, inputs are viewed in turn, then the terminal is given back',
     statement='When standard output is a terminal, the inputs are viewed one after the other in the order given (or, with --diff, the two of them side by side), each with its own name and document and with what the options say of reading, order, unicode and colors, up to the first which cannot be read; '
               'q goes on to the next one, SIGINT and SIGTERM end the whole program, and if standard input or output is not a terminal, the viewer uses the controlling one. '
               'The terminal is always given back, nothing is written on standard output or error before that (nor on standard output afterwards), then the errors, and the warnings of all the inputs viewed, are reported on standard error; if no terminal can be used, a message says so.',
     over=['inputs', 'configurations', 'histories', 'fault_sequences'], quant='all lists of inputs, options, sequences of keys over successive viewers, signals at any time, and kinds of terminals',
     tests='The tests never start the program nor a viewer.',
     files=['src/main.cpp', 'src/params.cpp', 'src/curseOutput.cpp', 'src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp'],
     mech=[('run, runDiff, readOneFile', 'src/main.cpp'), ('init, onsig, shutdown', 'src/curseOutput.cpp, src/curseSimpleOutput.cpp, src/curseSplitOutput.cpp')],
     observe=['screen at each wait for a key', 'standard output and error', 'calls to newterm and endwin'],
     space='all lists of distinct inputs over 7 documents (valid, valid with -W only, malformed, truncated, empty; files, standard input, arguments) with 15 lists of options; all sequences of 12 keys and events over successive viewers; SIGTERM at each call to the terminal library; no terminal at each viewer; standard streams which are a terminal or not',
     bounds={'quick': 'lists of 3 inputs, 4 keys over two viewers, SIGTERM at 120 calls', 'thorough': 'lists of 4 inputs, 5 keys over two or three viewers, SIGTERM at 400 calls'},
     counts='states: distinct (viewer, reference state, screen) triples reached (counted in a hash table, per subtree); transitions: waits for a key at which the screen and the streams were compared with the reference; traces: complete executions of the program',
     technique='exhaustive enumeration of inputs, options, keys and environment answers through the real program, stepped against the reference model of its viewers',
     note='Bounded-exhaustive on the real program (main() included, ASan+UBSan), one process for each case; the terminal is the real ncurses with a replaced input and output. Nothing is claimed for other inputs or longer histories. Trusted: the reference models, ncurses.')

prop('P35', harness='h_pty', title='In a real terminal, it is used as promised, and given back at each end or stop',
     statement='Run as it is built, under a shell in a real terminal (with or without colors, whatever its modes), the program displays what its viewers promise after each key and each change of size, writes nothing out of the screen and no color when there is none or when they are refused, and only displays the cursor after the text of the search prompt. '
               'However it ends (q, ^C, SIGINT, SIGTERM, hang up, terminal which cannot be used) or is stopped (^Z while it waits for a key), the modes, screen, cursor, keypad and colors of the terminal are those it had before; once continued, even after a change of size, everything is displayed again. '
               'In a UTF-8 terminal, each printable character of a document is displayed as it is.',
     over=['inputs', 'configurations', 'histories'], quant='all sequences of keys, sizes, stops and ends, in each kind of terminal, with each way to give the input; all the printable characters',
     tests='The tests never start the program, nor use a terminal.',
     files=['CMakeLists.txt', 'src/main.cpp', 'src/curseOutput.cpp', 'src/curseSimpleOutput.cpp', 'src/curseSplitOutput.cpp', 'src/inputSequence.cpp'],
     mech=[('init, onsig, resize, readInput', 'src/curseOutput.cpp'), ('shutdown', 'src/curseSimpleOutput.cpp, src/curseSplitOutput.cpp'), ('InputSequence::read', 'src/inputSequence.cpp')],
     observe=['what is written on the pseudo terminal, interpreted', 'modes of the pseudo terminal (tcgetattr)', 'exit status'],
     space='all combinations of ways to give the input (file, standard input, typed, several, comparison), kinds of terminal, initial modes and ends; all sequences of 13 keys and events (among them changes of size, ^Z then fg, ^Z then change of size then fg); every printable character of Unicode',
     bounds={'quick': '3 keys', 'thorough': '4 keys'},
     counts='states: distinct (viewer, reference state, screen) triples reached (per subtree); transitions: steps after which the screen was compared with the reference; traces: complete runs of the program',
     technique='exhaustive enumeration of runs of the built program in a pseudo terminal, stepped against the reference model of its viewers',
     note='Bounded-exhaustive on the unmodified program, built by the CMakeLists.txt of the repository, in a pseudo terminal with job control; each step waits until what is displayed is what is expected (10 s at most). Nothing is claimed for longer histories, nor for ^Z while the screen is being drawn. Trusted: the reference models, the interpreter of the terminal (two terminal descriptions of its own). One known finding: characters other than ASCII.')
