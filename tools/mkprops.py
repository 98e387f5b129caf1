#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property texts live)."""
import json, os
S='CMakePasm/source/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[S+f if '/' not in f else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"meaning":m,"where":w} for m,w in state]
    a["observe_at"]=observe or ["bytes of the file named by -o","process exit status"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Opcode bytes match the 6502/65C02 instruction set",
 "For every instruction and addressing mode the assembler accepts, the opcode byte it emits is the one the processor documentation gives for exactly that instruction and mode, and operand-less instructions emit exactly one byte. A documented instruction/mode pair of the selected processor is never refused, and a pair that does not exist on the selected processor is refused with a failing exit status.",
 ["inputs","configurations"],"every mnemonic x every written operand form x both processors x illegal opcodes on/off, with the operand value symbolic",
 "The unit tests compare the table with a copy of itself or assemble a few samples; no test compares each of the ~1500 instruction/mode/processor cells with an independent decoding of the processor's opcode map.",
 ["opcodes.cc","node.cc","expand.cc","genoutput.cc"],
 [("opcode tables and lookup","opcodes.cc: ops6502, ops65c02, get_op_code"),("operand form to mode","node.cc: opcode_node; expand.cc: expand_op_code_node"),("emission","genoutput.cc: write_opcode_node")],
 [("selected processor and illegal-opcode switch","opcodes.cc: cpu_mode, allow_illegal_op_codes")])

prop("C02","Processor and illegal-opcode selection gates instructions",
 "Instructions and addressing modes that exist only on the 65C02 assemble only while the 65C02 is selected, and undocumented 6502 instructions assemble for the 6502 only while illegal opcodes are allowed; otherwise assembly fails. The command-line switches and the in-source directives select the same instruction sets, and a directive takes effect from its own line onward.",
 ["inputs","configurations","programs"],"every mnemonic under every combination of command-line switch and in-source directive, operand values symbolic",
 "Tests exercise one instruction per switch; the gating must hold for every instruction, mode and order of directives.",
 ["opcodes.cc","pasm.l","parseargs.cc"],
 [("gate","opcodes.cc: get_op_code"),("directives","pasm.l: .6502 on/.65c02 on/.illegal on|off"),("switches","parseargs.cc: parse_arguments")])

prop("C03","Operand width, byte order and range of instruction operands",
 "An instruction whose operand value is already known uses the zero-page form exactly when the value lies in 0..255 and the instruction has that form, and the absolute form otherwise; the one or two operand bytes are the value's little-endian bytes. An immediate operand is encoded as its low byte, and a value that cannot be represented in the widest form is reported as an error instead of being silently truncated.",
 ["inputs"],"every instruction and operand form, every 16-bit operand value (and beyond, for the range check)",
 "Tests use a handful of constants; the zero-page/absolute boundary and the byte split must be right for all values of all instructions.",
 ["node.cc","expand.cc","genoutput.cc"],
 [("mode selection","node.cc: opcode_node; expand.cc: expand_op_code_node"),("operand emission","genoutput.cc: write_opcode_node, write_data, write_word")])

prop("C04","Branches reach their target, near or far",
 "A relative branch whose target is -128..+127 bytes from the following instruction is encoded as the branch opcode and exactly that displacement. A conditional branch whose target is farther away is replaced by code that, when executed, goes to the same target under exactly the same flag condition and otherwise continues with the next instruction.",
 ["inputs","programs"],"every branch instruction, every distance (symbolic), forwards and backwards, inside and outside loops and macros",
 "Displacement boundaries (+127/+128, -128/-129) and the inverted branch for each condition are single points among 65536 distances; tests assemble two or three distances of one branch.",
 ["expand.cc","genoutput.cc","node.cc"],
 [("range test and far-branch rewrite","expand.cc: expand_op_code_node"),("displacement","genoutput.cc: write_opcode_node")],
 [("address of the instruction","node.h: op_code_node.program_counter")])

prop("C05","Expression operators compute 32-bit two's-complement results",
 "Every arithmetic, bitwise, shift, comparison and logical operator, and the unary operators for negation, complement, logical not, low byte and high byte, yields the value defined by 32-bit integer arithmetic: the complement is taken within the operand's width (one byte when the operand fits one byte, otherwise two), division truncates toward zero, comparisons and logical operators yield 0 or 1, and low/high byte select bits 0-7 and 8-15. Division by zero is reported as an error and never crashes the assembler.",
 ["inputs"],"every operator, every pair of operand values (symbolic)",
 "Unit tests check one or two operand pairs per operator; wrong signedness, masks or swapped operands differ only on particular values.",
 ["expand.cc","node.cc"],[("operator evaluators","expand.cc: expand_operator_table entries")],
 None,["value emitted by .word/.byte of the expression"])

prop("C06","Operator precedence and associativity",
 "An unparenthesised expression has the same value as the one fully parenthesised by the precedence levels, lowest first: shifts; logical and comparison operators; bitwise or, and, xor; additive; multiplicative. Operators on one level associate to the left; a prefix complement, logical not, low-byte or high-byte operator applies to everything to its right up to the closing parenthesis, a minus sign only to the number or parenthesised expression it precedes; and explicit parentheses always override.",
 ["inputs","programs"],"every ordered pair of binary operators in a op b op c, with a, b and c symbolic",
 "Tests contain isolated operators; the grouping of each of the ~270 ordered operator pairs shows only for operand values that distinguish the two groupings.",
 ["pasm.y"],[("precedence declarations","pasm.y: %left/%nonassoc")],None,["value emitted by .word of the expression"])

prop("C07","Numeric and character literals denote their value",
 "A decimal, $-hexadecimal, %-binary or 0b-binary literal denotes its positional value, in either letter case of hexadecimal digits, and a quoted character literal denotes the character's code or the code of its escape sequence. Every spelling of the same number assembles to the same bytes.",
 ["inputs"],"every literal of up to 4 hex digits, 5 decimal digits, 16 binary digits; every printable character literal; every escape",
 "A lexer test samples one literal per base; a mistake in a digit class, a base or an escape shows only for particular digits.",
 ["pasm.l","str.cc"],[("literal rules","pasm.l: INT, INT_1BYTE"),("escape decoding","str.cc: sanitize_string")])

prop("C08","String literals are emitted with escapes decoded",
 "A string in a byte or string directive is emitted as exactly its characters in order, with each escape sequence (newline, tab and the other letter escapes, quotes, backslash, hexadecimal and octal codes) replaced by the one byte it denotes, and nothing before, between or after; an escape sequence that denotes no byte (unknown letter, octal above 377, \\x without a digit) is refused. In a word directive the string is followed by one zero byte when its length is odd.",
 ["inputs"],"every string of up to 4 characters and every position/kind of escape (characters symbolic)",
 "Tests contain a few fixed strings; escape decoding is a state machine over every character combination.",
 ["str.cc","node.cc","genoutput.cc","pasm.l"],[("escape decoding","str.cc: sanitize_string"),("string emission","genoutput.cc: write_string_node")])

prop("C09","Data directives emit exactly the listed values",
 "Byte and word directives emit one byte, respectively two little-endian bytes, per listed value in list order, whatever mix of constants, expressions, symbols and strings is listed. A value that does not fit the element size (neither as an unsigned nor as a negated unsigned number) makes the assembly fail, and every value that fits, signed or unsigned, is accepted.",
 ["inputs","programs"],"lists of up to 3 elements with symbolic values over the whole 16/17-bit range",
 "Tests list in-range constants; the range limits and element order must hold for all values.",
 ["node.cc","expand.cc","genoutput.cc"],[("list expansion","expand.cc: expand_data/expand_expr_list"),("range checks and emission","genoutput.cc: write_data_node")])

prop("C10","Fill directive emits exactly count copies",
 "The fill directive emits exactly the requested number of copies of the given value, and advances the assembly address by exactly that number of bytes, so that everything following lies directly behind it. This holds for every count including zero.",
 ["inputs"],"every fill value and counts 0..N (symbolic)",
 "Tests use one count; off-by-one and zero counts are boundary values.",
 ["expand.cc"],[("fill expansion","expand.cc: expand_fill")],[("assembly address","globals.cc: program_counter")])

prop("C11","Labels equal the address of the byte they precede",
 "In every successfully assembled program, the value of each label equals the origin plus the number of bytes emitted before the label's position, and the address counter seen by expressions equals the address of the statement (in a data list: of the element) that uses it. In other words, the sizing passes and the emitting pass agree on the size of every statement.",
 ["inputs","programs"],"every statement kind (instructions in all modes incl. forward and backward references, data, strings, fill, loops, conditionals, macros, far branches, binary load), operand values symbolic, label placed after it",
 "The passes size statements by separate code paths; tests check the output of fixed samples but not that each statement kind has the same size in every pass for all operand values.",
 ["expand.cc","pass.cc","genoutput.cc","sym.cc","node.cc"],
 [("sizing and emission of each statement","expand.cc: expand_op_code_node, expand_data, expand_fill, ..."),("pass iteration to a fixed point","pass.cc: assemble"),("change detection","sym.cc: set_symbol_value")],
 [("assembly address","globals.cc: program_counter"),("symbol values","sym.cc: symbol table")])

prop("C12","Forward references resolve to the final value",
 "A reference to a symbol or label defined later in the source yields the same value as a reference placed after the definition, the instruction that makes the reference is complete and decodable, and passes repeat until no symbol changes. Chains of definitions that depend on later ones settle to the same values as when written in dependency order.",
 ["programs","inputs"],"forward-reference chains up to depth 3, references from instructions, data and expressions; symbolic values",
 "The pass loop has to converge for every dependency shape and value (zero-page vs. absolute feedback); tests fix a few.",
 ["pass.cc","sym.cc","expand.cc"],[("fixed point over passes","pass.cc: assemble"),("change flag","sym.cc: set_symbol_value, sym_value_changed")])

prop("C13","Undefined symbols and reported errors fail the assembly",
 "If the source refers to a symbol that is never defined, or any error message is reported during assembly, the process ends with a non-zero exit status. A program without errors ends with exit status zero.",
 ["programs","inputs"],"every error kind reachable from one-line templates with symbolic operands, in a last or non-last statement",
 "Tests check error counters in unit calls; whether the status of the whole run reflects an error depends on the pass in which the error is noticed.",
 ["pass.cc","error.cc","sym.cc","main.cc"],[("error counting","error.cc: yyerror"),("abort after a pass with errors","pass.cc: assemble"),("unresolved symbols","sym.cc: unresolved_symbol_count")],None,["process exit status"])

prop("C14","Program-format header",
 "With the Commodore program format selected, by switch or directive, the output file is the two-byte little-endian load address, equal to the origin, followed by exactly the bytes the plain binary format would contain. Without it no header is written.",
 ["inputs","configurations"],"every 16-bit origin (symbolic), both ways of selecting the format, content symbolic",
 "Tests look at single origins; header/body interplay must hold for every origin and content.",
 ["genoutput.cc","pasm.l","parseargs.cc"],[("header","genoutput.cc: write_header")])

prop("C15","Origin and address assignments",
 "Setting the origin makes the address of the first emitted byte equal to it, and every label and address-counter reference is relative to it. Setting a second, different origin is refused, and reserving storage advances the address by exactly the requested number of bytes.",
 ["inputs","programs"],"every 16-bit origin (symbolic), reserve sizes symbolic within bounds",
 "Fixed origins in tests; arithmetic on the address must hold for all.",
 ["expand.cc","genoutput.cc"],[("origin handling","expand.cc: expand_org, expand_pcassign, expand_ds")])

prop("C16","Scoped and local symbols resolve to their own definition",
 "A symbol used inside a section resolves to the section's own definition when there is one and otherwise to the global one (sections around it are not searched), equal names in different sections never interfere, and a section member can be named from outside by section-dot-name. A label starting with @ belongs to the preceding ordinary label, so equal @-names under different labels are distinct.",
 ["programs","inputs"],"two sections / two parent labels with equal and different names, all reference positions, symbolic values and symbolic name characters",
 "Tests hold a few fixed names and values; capture errors depend on names, nesting and order.",
 ["sym.cc","expand.cc"],[("scope-qualified lookup","sym.cc: look_up_symbol, add_symbol"),("section push/pop","expand.cc: expand_section, expand_endsection")],[("current section and last label","sym.cc: current_scope, last_label")])

prop("C17","Anonymous + and - labels pick the n-th neighbour",
 "A reference of n minus signs resolves to the n-th nearest anonymous minus label at or before it, and a reference of n plus signs to the n-th nearest anonymous plus label after it, regardless of how many others exist. The labels of a source file are its own; a reference without such a label is an error.",
 ["programs"],"layouts of up to 4 anonymous labels and references of depth 1-3; distances symbolic",
 "Resolution depends on the relative position of all labels; tests fix a few layouts.",
 ["sym.cc"],[("tables of anonymous labels","sym.cc: find_minus_symbol, find_plus_symbol, add_minus_symbol, add_plus_symbol")])

prop("C18","Keywords, mnemonics and symbols are case-insensitive",
 "Changing the letter case of any mnemonic, directive, register name, hexadecimal digit or symbol name in a source does not change the assembled bytes.",
 ["inputs","programs"],"the case of every letter of representative statements of each kind is symbolic",
 "2^n case patterns per line; tests use one.",
 ["pasm.l","hash.cc","sym.cc","memory.cc"],[("case-insensitive scanner","pasm.l"),("hash and compare","hash.cc: hash_string_function; memory.cc: stricmp")])

prop("C19","Macro calls equal the substituted body",
 "A macro call assembles to the same bytes as the macro's body written in place with each parameter replaced by the value of the corresponding argument, for every number of calls, nested calls and argument values. Parameters of one call never leak into another, and @ labels inside the body are separate for every call. A parameter without an argument is an error where it is used.",
 ["programs","inputs"],"macros with 0..3 parameters, called up to 3 times, nested 2 deep; argument values symbolic",
 "Parameter passing uses saved/restored state; leakage shows only for particular nesting and values.",
 ["node.cc","sym.cc","expand.cc"],[("macro expansion","node.cc: macro_expand_node; expand.cc: expand_macro"),("parameter save/restore","sym.cc: macro parameter stack")])

prop("C20","Conditional assembly assembles exactly the chosen branch",
 "An if block assembles its first branch exactly when the condition is non-zero and the else branch otherwise; an ifdef/ifndef block assembles exactly the branch selected by whether the symbol is defined at that point. This holds for every nesting of these blocks, and text in a branch not chosen has no effect.",
 ["programs","inputs","configurations"],"all nestings of depth 2 of if/ifdef/ifndef with and without else, every truth assignment, symbolic condition values",
 "Every nesting/truth combination is a separate program; tests contain un-nested ones.",
 ["pasm.l","expand.cc","stacks.cc"],[("skip state and stack","pasm.l: IF_DEF, ifdef_stack"),("if expansion","expand.cc: expand_if")])

prop("C21","Assembly-time loops repeat the body the right number of times",
 "A for loop assembles its body once for every value from start to end inclusive in steps of the given step (default 1, upwards or downwards), a while loop as long as its condition is non-zero before the body, and repeat-until and do-while loops test after the body. Within the body the loop variable has its current value.",
 ["inputs","programs"],"start, end, step and conditions symbolic within small ranges, all loop kinds, nested loops",
 "Tests run one start/end pair; off-by-one and sign-of-step errors show at boundary values.",
 ["expand.cc"],[("loop expansion","expand.cc: expand_for, expand_while, expand_repeat, expand_do")])

prop("C22","Register loops execute their body for exactly the stated counts",
 "The code generated for an index-register loop, when executed on the processor from any initial register and flag state, runs the body exactly once for each value from start to end inclusive, in order, with the register holding that value, and then falls through.",
 ["inputs","programs"],"every start/end byte pair (symbolic) within the stated body length, X and Y, up and down; processor state symbolic",
 "The generated code has to be executed to be judged; tests only compare its bytes for single constants.",
 ["expand.cc"],[("register loop code generation","expand.cc: expand_reg")])

prop("C23","Symbol dictionary behaves as a map",
 "After any sequence of insertions, updates, lookups and removals, a lookup of a key returns the value most recently stored for it and nothing for keys not present, independent of the number of entries, of key collisions and of growth of the table. String keys that differ only in letter case are one key.",
 ["histories","inputs"],"all operation sequences up to the bound over symbolic keys, starting sizes that force growth",
 "Unit tests insert fixed keys; collisions, growth and removal interact for particular keys and histories.",
 ["dictionary.cc","hash.cc"],[("chained hash table with growth","dictionary.cc: dict_insert, dict_search, dict_delete, grow"),("hash","hash.cc")],None,["return values of the dictionary API"])

prop("C24","Stacks return what was pushed, last in first out",
 "After any sequence of push, pop, top and clear operations on a stack of any element size, pop and top deliver exactly the bytes of the most recently pushed element not yet popped, including after the storage has grown, and an empty stack delivers nothing.",
 ["histories","inputs"],"all operation sequences up to the bound, symbolic element bytes, growth included",
 "Histories are exponential; growth happens only after many pushes.",
 ["stacks.cc"],[("array stack with growth","stacks.cc")],None,["return values of the stack API"])

prop("C25","Listing agrees with the object file",
 "For every statement, the address and the byte values printed in the listing are the address and bytes actually emitted for it, in order, and every emitted byte of code and data appears in the listing.",
 ["inputs","programs"],"every instruction mode and data directive with symbolic operands",
 "Listing text is produced by code separate from the output writer; tests never compare the two.",
 ["node.cc","genlist.cc","genoutput.cc"],[("listing text","node.cc: generate_list_node; genlist.cc"),("object bytes","genoutput.cc")],None,["file named by -l","file named by -o"])

prop("C26","Symbol file reports final symbol values",
 "The symbol file lists every global symbol and label the program refers to, each once, with exactly the value it has at the end of assembly, and nothing the program does not define.",
 ["inputs","programs"],"symbolic symbol values (16 bit), several symbols",
 "Tests do not read symbol files back; formatting and selection must hold for all values.",
 ["sym.cc","pass.cc"],[("dump","sym.cc: dump_symbols")],None,["file named by -s"])

prop("C27","Command-line options mean what the usage text says",
 "Each documented option takes effect in any letter case and position and with either option prefix, a missing or repeated argument is refused with a failing exit status, and a symbol defined on the command line has exactly the value written, in each of the supported number notations, or is refused if it is no 16-bit number.",
 ["configurations","inputs"],"every option, every value digit string up to 17 characters (symbolic), case and prefix symbolic, repeated/missing arguments",
 "Tests pass one fixed option set.",
 ["parseargs.cc"],[("option parsing","parseargs.cc: parse_arguments")],None,["exit status","bytes of the output file"])

prop("C28","Reporting options never change the object code",
 "The bytes of the object file and the exit status are the same whether or not verbose output, a symbol file, a listing file, a log file, listing on/off directives, tracing (debug) directives, printing of values or warning suppression are requested.",
 ["configurations","programs","inputs"],"all 2^k combinations of reporting options over representative statements with symbolic operands",
 "Tests always run with one fixed combination; listing code evaluates expressions and touches the same state as output code.",
 ["node.cc","genlist.cc","pass.cc","sym.cc"],[("listing built in the final pass","node.cc: generate_list_node"),("verbose/symbol output","pass.cc: assemble")])

prop("C29","No source text makes the assembler access invalid memory",
 "Whatever bytes the source file contains, the assembler terminates by reporting errors or by producing output; it never reads or writes outside an object, uses freed memory or executes an invalid operation.",
 ["inputs"],"every source text of bounded length built from symbolic bytes, in each lexical context (free text, after each directive, inside strings, literals and conditionals)",
 "Only a few well-formed sources are tested; malformed ones are unbounded.",
 ["pasm.l","str.cc","node.cc","sym.cc","expand.cc","stacks.cc","genlist.cc"],[("scanner, escape decoding, conditional stack, symbol tables","pasm.l; str.cc; stacks.cc; sym.cc")],None,["every memory access of the run"])

prop("C30","Including a file equals inserting its text",
 "Including a source file (without anonymous labels, which belong to their file) assembles to the same bytes as writing its text in place, at any nesting, and afterwards assembly continues on the next line of the including file; a binary load emits exactly the bytes of the file. Files are looked up by name first and then in each search directory in the given order.",
 ["programs","inputs"],"include nesting to depth 2 and file contents symbolic (all byte values for binary load, sizes 0..N); file present in any subset of the search directories",
 "Tests include one file in one place.",
 ["file.cc","expand.cc","pasm.l"],[("include stack","file.cc: open_include_file; pasm.l: <<EOF>>"),("search","file.cc: open_file"),("load","expand.cc: expand_load")])

prop("C31","Line-ending converter normalises without losing text",
 "Converting a text file replaces every line ending, of whichever convention (LF, CR LF, CR) and in any mixture, with one line feed, leaves all other bytes unchanged and in order, and converting twice is the same as converting once, for every file in the samples directory and the directories below it. Files recognised as binary are left untouched, and the converter neither crashes nor uses memory it does not own.",
 ["inputs"],"every content of up to 7 bytes (thorough: 9)",
 "The converter has no tests at all; it is a state machine over adjacent characters.",
 ["CMakePasm/eolconvert/eolconvert.cc"],[("conversion state machine","eolconvert.cc: replace_eol"),("text detection","eolconvert.cc: is_text_file")],None,["bytes of the converted file"])

prop("C32","Comments, blank lines and white space do not change the output",
 "Line comments, block comments, blank lines, additional spaces or tabs between tokens, and line ends of carriage return and line feed instead of line feed never change whether a program is accepted nor the assembled bytes.",
 ["inputs","programs"],"comments of arbitrary bytes, white space, blank lines and carriage returns at every token boundary of 56 kinds of statement and short programs, one at a time and everywhere at once",
 "Tests have fixed formatting.",
 ["pasm.l"],[("comment and white-space rules","pasm.l")])

prop("C33","Several input files are one program",
 "Naming several source files on the command line assembles exactly the program that their texts make when put one behind the other in that order: it is accepted or refused alike, with the same object file and the same symbols; labels, variables, macros, sections, local-label scopes, processor and format settings of one file are in force in the following ones, in every pass, wherever the options stand among the files. Anonymous labels belong to their file.",
 ["programs","histories"],"texts of five statements or blocks cut into up to five files at every statement boundary, operands symbolic",
 "Tests name one file; which state survives the change of files, and is restored at the start of each pass, depends on the pair of statements around the cut.",
 ["pass.cc","parseargs.cc","pasm.l","file.cc"],[("files of a pass","pass.cc: parse_pass"),("end of a file","pasm.l: <<EOF>>"),("arguments","parseargs.cc: parse_args")])

prop("C34","The disassembly in the listing stands for the bytes beside it",
 "The instruction or the values shown behind the bytes of a listing line denote exactly these bytes: the values of a data line are its bytes in order, and the instructions, assembled again at the same place, are accepted and give the bytes of the object file, for every instruction, addressing mode, operand value (also negative ones) and kind of data.",
 ["inputs","programs"],"every instruction form of the three processors with symbolic operands; data and strings with symbolic bytes; pairs of 40 kinds of statement",
 "Listing text is formatted by code of its own, per addressing mode; tests compare a few listings only.",
 ["node.cc","opcodes.cc","genlist.cc"],[("disassembly","node.cc: generate_list_node"),("mnemonics","opcodes.cc: instruction_to_string")],None,["file named by -l","file named by -o"])

os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
