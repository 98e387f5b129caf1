"""What check.py runs for each property."""
SPECS = {}
def S(id, bounds, jobs, outside="", assumptions=(), **k):
    SPECS[id] = dict(bounds=bounds, outside=outside, jobs=jobs, assumptions=list(assumptions), **k)
def J(h, slices=1, tiers=("quick", "thorough"), **k):
    defs = k.pop("defs", {}); return dict(harness=h, defs=defs, slices=slices, tiers=tiers, **k)

S("C01", "every instruction name and addressing form of the three configurations (6502, 6502 -i, -65c02); operand: every 16-bit value, written as four hexadecimal digits (immediate: every byte); one program per instruction holding all its forms, one per form that does not exist",
  [J("c01.c", 8, defs={"CFG": c, **v}) for c in (0, 1, 2) for v in ({"VALID": 1}, {})],
  outside="BBR/BBS (their two-operand form is not in the grammar), where branches lead (C04), operands other than four-digit hexadecimal literals (C03, C05, C07)")

S("C02", "every instruction name and form that one of the selections has, against every selection (6502 / 65C02, undocumented allowed or not) made by switch or by directive over the opposite switch, operand every 16-bit value; and every sequence of 2 (thorough: 3) of the four directives or none, with one of 5 (8) probe instructions before, between and after them, under each of the 4 switch combinations",
  [J("c02.c", 16, defs={"ALLOPS": 1}), J("c02.c", 8)],
  outside="forms with other operand spellings")

S("C03", "operand value every 32-bit non-negative number as 8-digit hexadecimal literal, its negation, through a symbol defined before, and every sum and difference of a 20-bit and a 16-bit number; 8 (thorough: 12) instructions that between them have every combination of zero page, absolute, indexed and indirect forms, each with every operand form it has; every instruction and form that has a short and a long encoding, assembled twice by one statement (macro body, for loop; thorough: repeat loop) with two different operands, every byte of page zero and one other page",
  [J("c03.c", 8), J("c03.c", 8, defs={"AGAIN": 1})],
  outside="operands not yet known when the instruction is read (C12); negative immediates below -128 and negative addresses below -32768, which wrap")

S("C04", "the eight conditional branches and bra; target every 16-bit address (literal and symbol), origin $1000 (thorough: also $80, $C0F0); label targets before and behind blocks of 0 and 121..130 (thorough: 20 sizes up to 295) bytes with one or two branches, also with anonymous and local labels and in sections, .ifndef, macros and conditionals of macros, and at origin 0 (quick: for a third of the sizes; thorough: also $20, $FF); a branch assembled two or three times by a loop, target every 16-bit address; generated code executed by a reference interpreter for every combination of the N, V, Z, C flags; targets 300 to 5000 (thorough 12000) bytes away",
  [J("c04.c", 8, defs={"ABSOLUTE": 1}, reach=["end", "near", "far"]), J("c04.c", 8, defs={"LABELS": 1}), J("c04.c", 4), J("big.c", 8, defs={"P": 4}, max_inst=3000000000)],
  outside="BBR/BBS")

S("C05", "all 18 binary and 5 unary operators, each operand every 32-bit value (shift counts 0..31; with a symbol-free parenthesised divisor, divisors 1..255), as literals, as variables and as parenthesised subexpressions; the 32-bit result observed through two words; division of every 32-bit value by zero; chains of 9 to 90 (thorough 200) operators and as many levels of parentheses",
  [J("c05.c", 8), J("c05.c", 2, defs={"UNARY": 1}), J("c05.c", 2, defs={"DIV0": 1}), J("big.c", 2, defs={"P": 5})],
  outside="shift counts outside 0..31")

S("C06", "every ordered pair of the 18 binary operators in `p op q op r` without parentheses and with either pair parenthesised; prefix operators before and after a binary operator and between two (quick: half of the pairs), with and without spaces around the operators; the address counter (origin every 16-bit value below $FF00; 1..255 with * or /) as one of three operands (quick: each operator with == and one other); operands every 32-bit value for which the groupings are defined, every 8-bit value where one operator is * or / (5-bit where two are); thorough: also three operators, 12 representatives of the levels each",
  [J("c06.c", 8), J("c06.c", 4, defs={"UNARY": 1}), J("c06.c", 8, defs={"STAR": 1}), J("c06.c", 16, ("thorough",), defs={"FOUR": 1})],
  outside="divisor 0 and shift counts outside 0..31 (C05)")

S("C07", "hexadecimal literals of 1..9 digits in either letter case, decimal literals of 1..11 digits, binary literals in both notations of 1, 7..9, 15..17, 31, 32 (thorough: 17 lengths) digits, every digit symbolic; quoted characters: every byte except NUL and newline; every letter escape; '\\xH', '\\xHH', '\\O', '\\OOO' with symbolic digits; each as instruction operand and in expressions",
  [J("c07.c", 4, defs={"NUMBERS": 1}, reach=["end", "big"]), J("c07.c", 4)],
  outside="'\\' (a lone backslash), octal codes above 377, hexadecimal character codes of three or more digits")

S("C08", "strings of 0..3 (thorough 4) elements in a byte, word and string directive (thorough: every spelling of the directives); each element any of: an ordinary character (every byte but control characters, quote, backslash), every letter escape, \\xHH, \\xH, \\OOO, \\OO, \\O with symbolic digits; lists mixing up to three strings and values; a backslash before every printable character, before \\x and every character and before three octal digits of every value up to 777, refused exactly where it stands for no character; strings of 12 lengths from 30 to 4095 (thorough 15, to 8000) characters",
  [J("c08.c", 16), J("c08.c", 8, defs={"LIST": 1}), J("c08.c", 8, defs={"BAD": 1}, reach=["end", "refused"]), J("big.c", 4, defs={"P": 8})],
  outside="a hexadecimal escape directly followed by a character that is itself a hexadecimal digit (octal likewise); adjacent string literals without a comma")

S("C09", "byte and word directives (thorough: every spelling) with 1..3 (thorough 4) values; each a literal or its negation, a variable, a symbol defined before or behind, a sum or a difference, or a character; a single value over all 32-bit numbers, values in lists over all 16-bit numbers and their sums and differences; lists of 18 (22) lengths from 8 to 257 (800) values",
  [J("c09.c", 4, reach=["end", "refused"]), J("big.c", 4, defs={"P": 9})],
  outside="whether values between -255 and -129 (-65535 and -32769 for words) are accepted; strings in lists (C08)")

S("C10", "value every byte, count every number 0..20 (thorough 0..64, and 255, 256, 257, 300, 511, 513) as a literal, a symbol defined before or behind, or an expression of the address; the fill first in the program or behind a byte or behind another fill, before a word or an instruction; plain and program format; values beyond a byte and negative counts over all 32-bit numbers; 6 (13) counts from 1000 to 32769 (60000)",
  [J("c10.c", 4), J("c10r.c"), J("big.c", 22, defs={"P": 10}, max_inst=3000000000)])

S("C11", "40 kinds of statement (every addressing shape with backward, forward and label operands, data, strings, fills, loops, conditionals, macros, near and far branches, anonymous labels, sections, include, load) each alone and in all 1600 pairs (thorough: also a tenth of the triples), operands every 16-bit (8-bit) value, small counts 0..3; label and address counter behind them; one program of 300 (1200) labelled statements of seven sizes",
  [J("c11.c", 16), J("c11.c", 16, defs={"PAIRS": 1}), J("c11.c", 40, ("thorough",), defs={"PAIRS": 1, "TRIPLES": 1}), J("big.c", 1, defs={"P": 11})])

S("C12", "every instruction and form of both processors (branches: C04) with an operand symbol defined behind it, directly, in a sum (thorough: through a second symbol), value every 16-bit number; 4 (thorough 5) definitions depending on each other in four patterns (sums, differences, doublings) in every textual order, references before (thorough: between any two) and behind them, base value every 13-bit number; 3 (thorough 4) instructions referring to any of their own and neighbouring labels (global, local, anonymous), at 18 origins around the end of page zero",
  [J("c12.c", 8, defs={"INSTR": 1}), J("c12.c", 8, defs={"CHAIN": 1}), J("c12.c", 6)],
  outside="chains that need more than the assembler's 20 passes")

S("C13", "38 kinds of reference (instruction operands, data, fills, conditions, loops, macro arguments, assignments, variables, includes, ...) to a symbol whose name has a symbolic character, in a program that defines a constant, a label and a variable before or behind: accepted exactly when the name is one of them in any letter case; 54 kinds of error alone, before, behind and between good statements and inside an included file, with reporting options; one arbitrary byte (1..255) replacing or inserted before any (quick: every second) character of 9 good lines: an error message goes with a failing status and no message with success; one undefined (or defined) symbol under each of 8192 (thorough 65536) names, which take every place of the symbol table; one of ten errors among 80 (400) statements, with .print directives",
  [J("c13.c", 8, defs={"NAMES": 1}, reach=["defined", "undefined"]), J("c13.c", 8, defs={"HASH": 1}, reach=["defined", "undefined"]), J("c13.c", 8, defs={"ERRS": 1}), J("c13.c", 8, reach=["refused", "accepted"]), J("big.c", 4, defs={"P": 13})])

S("C14", "40 kinds of statement alone, and 80 (thorough 800) of the 1600 pairs at two origins, each under program format by switch, by directive at the start, in the middle and at the end, against the plain format; origin of the single statements every address $0200..$DFFF set by .org, by address assignment or through a forward symbol, or not set; operands every 16-bit (8-bit) value",
  [J("c14.c", 16), J("c14.c", 16, defs={"PAIRS": 1})],
  outside="programs that emit nothing")

S("C15", "origin every 16-bit address by .org, *=, *.equ, symbol defined before or behind; second origin: every pair of different addresses; reserved storage of every size up to $2000, one to three blocks, as literal, backward or forward symbol or expression; variable area before the code; address assigned between code; origins outside the address space: every such 32-bit number; no origin; nine sizes up to $FA00",
  [J("c15.c", 7), J("big.c", 2, defs={"P": 15})],
  outside="reserved storage directly followed by code or data without an address assignment, which the assembler refuses")

S("C16", "one name in the global scope, two sections and a nested section, in each not defined or as a constant or label before or behind its uses (all 625 combinations, two sets of names; thorough: also with the section reopened), used plainly in every scope and by its full name from every scope, constants every 16-bit value; three ordinary labels (global, one in a section, with definitions between, the first one left out, or the same name in three sections) with two @ labels each not used or defined before or behind (243, thorough 729, of the 729 combinations); references to every two-letter @ name; sections nested three deep with the name in each not defined, a constant or a label (all 256 combinations, thorough 625), used on entering each and behind each end of section; a constant or label defined under its full name in eight places (globally before and behind, in another section before and behind, in the section, in one inside it), the section outermost or nested, with and without a global of the name, a local label behind it; 60 (300) owners of local labels, sections and local labels of one owner, sections 10 (24) deep",
  [J("c16.c", 8, defs={"DEEP": 1}), J("c16.c", 16, reach=["end", "undefined"]), J("c16.c", 12, defs={"LOCALS": 1}), J("c16.c", 3, defs={"MISSING": 1}, reach=["end", "undefined"]), J("c16.c", 8, defs={"QDEF": 1}, reach=["end"]), J("big.c", 4, defs={"P": 16})],
  outside="names of an enclosing section used without qualification (they are not searched); @ labels in a section before its first ordinary label")

S("C17", "quick: 5 lines, thorough: 6, each with no, a minus or a plus label (all layouts); on every line a reference to every label of the layout in either direction, on the line of the label itself or on the next one, as branch, operand, data, in an if block, in an expression and as macro argument; origin every address $0200..$DFFF or none with the label on the first line of the file, a fill of 0..3 bytes in the middle; the nearest reference that has no label; two files, one included by the other under 7 names that sort before and behind it, with 3 and 2 (thorough 3) such lines, all layouts, every reference; up to 200 (500) labels with references of up to 101 (251) signs",
  [J("c17.c", 27, reach=["end", "missing"]), J("c17.c", 27, defs={"FILES": 1}, reach=["end"]), J("big.c", 8, defs={"P": 17}, reach=["end", "missing"])],
  outside="a file with such labels included twice (refused after 20 passes), definitions in macros (refused)")

S("C18", "every letter of either case, independently, in: the 40 kinds of statement with symbolic operands; 12 programs that between them contain every directive in every spelling, symbols, labels, sections, macros, loops, conditionals and digits; every mnemonic in 7 forms; compared with the assembly of the same text in one case",
  [J("c18.c", 8), J("c18.c", 8, defs={"KIND": 1}, reach=["end", "refused"]), J("c18.c", 8, defs={"OPS": 1}, reach=["end", "refused"])],
  outside="file names, text of strings and quoted characters")

S("C19", "13 macro bodies (operands, data, strings, fills, conditionals, loops, register loops, branches, address counter, local labels) and 3 that call an inner macro with exchanged and repeated parameters around them, each called three times, 6 mixtures of arguments (16-bit literals, symbols defined before and behind, expressions, labels, variables) in 6 surroundings (plain, defined in a section, called in sections, among local labels, in a loop, in a conditional), compared with the bodies written in place; 13 uses of each of three parameters with 0..3 arguments given after other calls or not, also by a nested call; 120 (400) calls, 50 (120) macros, calls 10 (20) deep, 14 (20) parameters",
  [J("c19.c", 32, reach=["end"]), J("c19.c", 13, defs={"MISSING": 1}, reach=["end", "missing"]), J("big.c", 4, defs={"P": 19})],
  outside="ordinary labels in a body (they are the definition's, not the call's), recursion (refused), constants defined in a body that is called again with another value")

S("C20", "blocks of every kind (if, ifdef, ifndef) with and without else, holding a block of every kind in either or both branches (quick: in a third of the cases, thorough: in all, a third level), 16 forms of condition (literals, symbols defined before and behind, variables, loop variables, macro parameters, comparisons, differences, && || not < >) over every 16-bit value (one page of the symbol behind), 13 names (constant, label, variable, macro, command line, qualified, any letter case, a symbolic letter, defined behind, only referenced before, defined in a branch chosen or not chosen, undefined), each program twice in a row, plain, in a section, in a loop or in a macro called twice; tests for a symbol defined in the same block (ten kinds of block, five places); in branches not chosen undefined symbols and definitions, in text skipped by ifdef anything, directives named in comments and strings; blocks of up to 33 (60) levels with each one not chosen",
  [J("c20.c", 16), J("c20.c", 8, defs={"INBLOCK": 1}), J("big.c", 4, defs={"P": 20})],
  outside="conditions on labels whose address depends on the block, text in an if branch that is no valid statement, processor and format directives in a block (they take effect from their line on, as text)")

S("C21", "for loops with and without step, upwards and downwards, while, repeat-until and do-while loops, alone and each with each inside, each program twice in a row; start every value of one of five pages, end -1..6 beyond it, steps 1..3; start, end and step as literals, symbols defined before or behind, expressions, of the outer variable; five spellings of the condition, also values other than 0 and 1; eight bodies (data, instructions, conditional, fill, macro call, counter, address); loops of 7 (9) numbers of passes from 200 to 1000 (10000), four loops in each other",
  [J("c21.c", 16), J("big.c", 7, defs={"P": 21})],
  outside="a while loop inside a do loop (not expressible: .while ends it); while, repeat and do loops whose variable starts with a symbol defined behind; loops that never end")

S("C22", "X and Y, upwards and downwards, start and end every byte as literal, symbol defined behind or expression; twelve (thorough 18) bodies: data, instructions, blocks of 118..300 bytes around the limit of a near branch, an assembly-time loop, macro calls, a nested loop of the other register; one loop or two; the generated code executed by a reference interpreter from an arbitrary state up to the body, and for every value of the register from behind the body with arbitrary flags to the body or the end of the loop (an induction over the iterations)",
  [J("c22.c", 8, reach=["end", "empty"])],
  outside="bodies that change the loop register")

S("C23", "names and pointers as keys, values of 1, 4 and 24 bytes with symbolic contents; 0, 918, 919, 920 or 930 other entries (growth is at 921; thorough: also 917 and behind the second growth), two or none of the keys stored before them, then every sequence of 3 (thorough: 4) of storing, removing, updating in place, storing through the place handed out earlier and storing three more entries, over three keys (one in two spellings, one of the other entries); a key with every value of one byte (names: every case folding and hash, pointers: every low byte) in 6 (12) histories; every number of entries from 913 to 928 with every sequence of 2 (3) operations; after every operation and at the end lookups of all keys, of an absent one and of a sample of the others",
  [J("c23.cpp", 8, unit=True), J("c23.cpp", 8, unit=True, defs={"KEY": 1}), J("c23.cpp", 5, unit=True, ask=True, defs={"COUNT": 1})],
  outside="more than two growths; names of more than 6 characters; pointers that differ in their upper half only")

S("C24", "two stacks with elements of 1, 4, 56 (thorough: also 7, 24) bytes of symbolic contents; 0, 24, 25, 49 or 74 (thorough 8 counts) elements, then every sequence of 5 (6) of push, pop, top, storing through top, clear, several pushes, and operations of the other stack; every number of elements from 0 to 110 with every sequence of 2; then all elements are compared and popped to the empty stack and beyond",
  [J("c24.cpp", 8, unit=True, ask=True), J("c24.cpp", 4, unit=True, ask=True, defs={"COUNT": 1})],
  outside="more than 125 elements")

S("C25", "programs of two statements of 40 kinds (quick: 80 pairs, thorough: all), operands every 16-bit or 8-bit value, with macros, loops, conditionals, sections, include files, binary loads, branches near and far; strings of 1..8 (12) characters in .byte, .db, .word, .str with any last or first character; statements listed, not listed and listed again by .print; programs of 250 (900) statements, strings of 750, lists of 250 values, lines of 3000 characters, 250 passes of a loop, 30 includes; the file of -l is parsed and every address and byte compared with the object file",
  [J("c25.c", 16), J("c25.c", 8, defs={"STRINGS": 1}), J("c25.c", 8, defs={"PRINT": 1}), J("c25.c", 6, defs={"BIG": 1}, max_inst=1000000000)],
  outside="the source text shown next to the bytes; the disassembly shown behind them is C34")

S("C26", "a symbol defined in front, behind, as a label (three ways), in a section, in a section with a global symbol of the same name, on the command line; referred to in 13 ways (data, operands, conditions, counts, macro bodies and arguments, loops, other sections, other definitions), once or twice; values every 16-bit number; one to three passes more through a chain of forward definitions; 100 (500) programs of 60 and 3 (8) of 700 symbols; the file of -s is parsed",
  [J("c26.c", 12), J("c26.c", 8, defs={"NAMES": 1}), J("c26.c", 3, defs={"NAMES": 1, "PER": 700}, max_inst=1000000000)],
  outside="symbols no part of the program refers to (tests pin that such labels are left out), names longer than 15 characters")

S("C27", "12 options, alone and in pairs in either order (thorough: also all others), the input file before, between or behind them, each option with either prefix and every combination of letter cases; 6 programs that show the effect of an option, operands every 16-bit value; argument missing, option repeated, no input file, absent input file, help, several -d, each with every other option; -d values of 1..5 hexadecimal digits ($, 0x), 1..17 binary digits (%, 0b), 1..6 decimal digits with or without a minus sign (quick: of the binary digits all but the first four and last three fixed), every digit, 10 decimal digits of which six are fixed; 5 to 30 (60) -d among other options",
  [J("c27.c", 6), J("c27.c", 8, defs={"ERRS": 1}), J("c27.c", 5, defs={"VALUES": 1}, reach=["end", "refused"]), J("big.c", 2, defs={"P": 27})],
  outside="what -v prints and -log records; values with characters that are no digits")

S("C28", "40 kinds of statement alone with each reporting option (-v, -s, -l, -log, -nowarn), all and some of them, with .print directives, each also with two of 12 errors (thorough: all); 240 (thorough: 800) pairs of statements with different sets of options; 240 (2400) pairs of statements between the tracing directives .debug_token, .debug_bison, .debug_addlist on and off; as many between directives that print values and texts (.print, .printall, ?, ??) in six forms; operands every 16-bit (8-bit) value; compared with the assembly without any of them",
  [J("c28.c", 16, reach=["end", "refused"]), J("c28.c", 16, defs={"PAIRS": 1}), J("c28.c", 16, defs={"DEBUGD": 1}, reach=["end", "refused"]), J("c28.c", 16, defs={"DEBUGD": 1, "PRINTV": 1})],
  outside="the name given to a reporting option being that of a source or of the object file")

S("C29", "42 contexts (free text, operands, every directive, strings, literals, comments, skipped text, macro parameters) with 1 or 2 (thorough: 2) bytes of every value, at the end of the file or not; programs of five tokens out of 85 (quick: all pairs in front, thorough: all triples, the others following from them); the 40 kinds of statement with everything behind any character or any one character missing or doubled; 26 kinds of long text (names, strings, numbers, comments, expressions, lists, nesting, parameters) of 32 lengths up to 5000; search directories of these lengths with names of files that fill the path buffer up to a few characters; with different sets of reporting options",
  [J("c29.c", 16, reach=["refused"], slow=True), J("c29.c", 16, defs={"TOKENS": 1}, reach=["refused"], slow=True), J("c29.c", 16, defs={"CUT": 1}, reach=["refused"], slow=True), J("c29.c", 16, defs={"LONG": 1}, reach=["refused"])],
  outside="paths longer than the step bound (loops that run for up to a million iterations; one input for each place where this happens is run on the program instead); endless loops that open a section each time; names of two symbolic letters other than a, b, x; sources that exhaust memory or the machine stack")

S("C30", "40 kinds of statement (without anonymous labels) in an included file with one (thorough: 12) other kinds behind, in 14 arrangements (alone, without a last line end, blank and comment lines, included by an included file in front, behind and last, empty file, two files, in a section, behind a label, last in a conditional; followed by other statements in a conditional, macro or loop: the known finding), operands every 16-bit (8-bit) value, compared with the text in place; .load of 12 (14) sizes up to 1000, the first 8, the middle and the last byte every value, in 8 arrangements; the file in every subset of the current and three search directories, up to three directories in 5 notations, as source, included or loaded file; loads of 10 (12) sizes from 1000 to 8193 (33000) bytes, includes up to 25 (40) deep, 40 (120) includes",
  [J("c30.c", 16, reach=["end"]), J("c30.c", 8, defs={"LOAD": 1}), J("c30.c", 8, defs={"DIRS": 1}, reach=["end", "absent"]), J("big.c", 10, defs={"P": 30}, max_inst=3000000000)],
  outside="anonymous labels (they belong to their file), file names of one character (a quoted character is a number)")
S("C31", "every content of up to 7 (thorough: 9) bytes of one file in the samples directory, each byte of every value, converted once and again, beside a file two directories down; every set of seven files in a tree of directories up to four deep, two adjacent bytes of one of them any; files of 17 (23) lengths from 15 to 1025 (8192) with three adjacent arbitrary bytes in one of four places; the whole converter program with its stream, path and directory classes replaced by models",
  [J("c31.c", 8, reach=["binary", "text"], eol=True), J("c31.c", 8, defs={"TREE": 1}, reach=["binary", "text"], eol=True), J("c31.c", 8, defs={"LONGF": 1}, reach=["binary", "text"], eol=True)], eol=True,
  outside="texts with a line feed directly followed by a carriage return (whether that is one line end or two is not settled), the installation into My Documents on Windows, which of tabs and accented letters make a file binary (taken as implemented)")

S("C32", "40 kinds of statement and 16 short programs (blocks, loops, macros, sections, skipped text, directives, operators); at each token boundary, line start and line end one of: two white-space bytes, a block comment of two arbitrary bytes, at line ends line comments of either kind with two arbitrary bytes or a carriage return, at line starts blank lines, white-space lines, comment lines, a block comment over two lines; and each of ten such insertions at every boundary of the program at once; operands every value; comments, white space and blank lines of up to 17000 (40000) characters",
  [J("c32.c", 16), J("c32.c", 16, defs={"ALL": 1}), J("big.c", 4, defs={"P": 32})],
  outside="block comments inside the directives of two words (.ifdef NAME, .65c02 on, ...), removal of white space, carriage returns without line feed")

S("C33", "40 kinds of statement (without anonymous labels) followed by one (thorough: 12) other kinds, and 16 things a file can set up (processor, format, variables, macros, sections, labels, conditionals, .end, ...) with 16 uses, the text cut into 2, 3 and 5 (thorough: every subset of 4 places) files of whole statements, one of them in a search directory, options before, between and behind the files, without a last line end, comments at the end, with and without a listing; operands every 16-bit (8-bit) value; compared with the one-file program: acceptance, object file, symbol file; up to 17 (30) files",
  [J("c33.c", 16, reach=["end"]), J("c33.c", 16, defs={"STATE": 1}, reach=["end", "refused"]), J("big.c", 1, defs={"P": 33})],
  outside="anonymous labels that the reference finds in another file, files cut inside a block")

S("C34", "every instruction in every form of the 6502, with the undocumented ones, and of the 65C02, operands every value, branches to every target in reach, directly and in a macro; operands that are a negated number or a difference with a number of any value in twelve forms; strings of up to 4 (thorough: 8) characters, the first and last of every value, and values in .byte, .word, .str, .db and .fill; two statements of 40 kinds (quick 40 pairs, thorough all) with every operand; the text behind the bytes of the listing is taken out of it and assembled by the program, its values and bytes compared",
  [J("c34.c", 16), J("c34.c", 16, defs={"INSTR": 1}), J("c34.c", 12, defs={"NEGATIVE": 1}, reach=["end", "refused"]), J("c34.c", 8, defs={"STRINGS": 1})],
  outside="zero page indirect of the 65C02 (the known finding of C01)")
