"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []
A = 'necroassembler/assembler.py'; S = 'necroassembler/statements.py'; T = 'necroassembler/tokenizer.py'
U = 'necroassembler/utils.py'; M = 'necroassembler/macros.py'; L = 'necroassembler/linker.py'
X = 'necroassembler/exceptions.py'


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or ['output bytes after linking', 'labels\' addresses', 'exceptions raised'],
                          hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop('C01', 'Source layout never changes what is assembled',
     'Two sources with the same sequence of labels, mnemonics, directives and operands assemble to the same bytes and label addresses however they are laid out: blank lines, indentation, spaces or tabs, commas or blanks between operands, spaces around brackets, LF, CR or CRLF line ends, trailing comments with any text in them, labels on their own line or in front of the statement, and upper or lower case mnemonics, directive and macro names (label and define names stay case sensitive). '
     'A missing newline at the end of the source loses nothing.',
     ['inputs', 'programs'], 'every program, on every supported CPU, and every pair of layouts of it',
     'The tokenizer tests contain two lines; every CPU test uses one fixed layout. Separators, comments, brackets, quotes and line ends interact in a character state machine.',
     [T, S], [('character state machine', T + ':Tokenizer'), ('case folding of mnemonic and directive keys', S + ':Instruction.assemble, Directive.assemble')])

prop('C02', 'Integer literals mean the same value in every notation',
     'A literal written in any notation the selected CPU declares (plain decimal, hex/binary/octal with a prefix or a suffix, a quoted character where the operand syntax admits one) denotes exactly its mathematical value, so two spellings of a value assemble to the same bytes in every operand and data directive. '
     'Negative decimals down to minus half the field range become their two\'s complement, and a non-decimal literal may fill the whole field with raw bits even where decimals are signed. '
     'A value that does not fit the field is refused with an error and is never truncated or wrapped.',
     ['inputs', 'configurations'], 'every literal value, notation and field width (data directives and instruction operands), on every supported CPU',
     'Tests use a few literals per CPU, none at the edges of most fields, and no suffix notation beyond a couple of cases.',
     [A, U], [('literal parser', A + ':_internal_parse_integer'), ('range rules', A + ':parse_integer; ' + U + ':in_bit_range, in_bit_range_decimal')])

prop('C03', 'Operand expressions are evaluated left to right, wherever labels are',
     'An operand made of a literal or label, optional byte-selection prefixes (> drops the low byte, < keeps the low byte, one more byte per repetition of the same sign) and a chain of + - * / & | operations evaluates strictly left to right without precedence, prefixes first on the leading operand, a missing right operand counting as 1. '
     'When the leading operand is a label the result is the same whether the labels used are defined before or after the expression, and an expression that names a label that never gets defined is an error.',
     ['inputs', 'programs'], 'every expression over literals and labels (up to 8 operations), every relative order of uses and definitions, every field width',
     'The tests evaluate seven expressions, all with backward labels, in an 8-bit field.',
     [A], [('formula splitting and evaluation', A + ':_get_math_formula, apply_math_formula'), ('late evaluation of label expressions', A + ':_resolve_labels')])

prop('C04', 'Data directives emit exactly the listed values in target byte order',
     'Byte, 16-bit and 32-bit data directives (under each of their names) emit their operands in source order, each with its exact width and in the byte order of the target CPU, strings and quoted text in byte data as their ASCII characters with a backslash making the next character literal (quotes, separators, brackets, colons, semicolons and line ends inside included), and quoted text in 16- and 32-bit data as UTF-16 or UTF-32 with its byte order mark, in the byte order of the target. '
     'The decimal-text directives emit the decimal digits of the number (a quoted number without padding or leading zeros, as if it were not quoted), zero-padded to the maximum width when the operand is a label, with one NUL at the end of the z forms. '
     'Operands that are labels end up holding the label\'s address exactly as if that number had been written.',
     ['inputs', 'programs'], 'every operand list (numbers, strings, labels, expressions, mixtures), both byte orders, every supported CPU',
     'Tests cover one .db and one .dd with a single literal each; strings, labels, ordering and text forms are never assembled.',
     [A, U], [('data directives', A + ':directive_db/dw/dd, directive_*_to_ascii(z)'), ('packing', U + ':pack_*')])

prop('C05', 'A label is the current origin plus everything emitted or reserved since',
     'At every point of a program the location counter equals the start of the current origin plus the bytes emitted and the RAM bytes reserved since that origin was set, and a label takes exactly that value, whatever statements (instructions, data, padding, repeats, macros, includes, file imports) produced the bytes. '
     'Reserving RAM advances the counter without emitting anything, and emitted bytes are appended in statement order and are never moved or dropped.',
     ['programs', 'inputs'], 'every sequence of statements, every position in it, on every supported CPU',
     'Tests check label addresses in a single RAM-only program; interactions of origins, RAM, padding, repeats and includes are not reached.',
     [A, S], [('origin and counter', A + ':change_org, append_assembled_bytes, pc'), ('label capture', S + ':Label.assemble')],
     ['location counter read by a probe directive at each statement', 'output bytes', 'label values'],
     [('origin/counter', 'start of the current region and bytes since', A)])

prop('C06', 'Using a label equals writing its address, before or after its definition',
     'For every operand that takes an absolute address or constant, on every supported CPU and in every data directive, a program that names a label assembles and links to the same bytes as the program with the label\'s numeric address written in its place, and moving the definition from before to after the use does not change the encoding of that operand, except where the 6502 must choose between its zero page and absolute forms. '
     'Bytes next to the operand, and other operands of the same instruction, are not disturbed.',
     ['programs', 'inputs'], 'every label-taking absolute operand form of every CPU and directive, every address that fits, both definition orders',
     'Label tests exist for few forms, each with one address; field placement for the others is never checked.',
     [A, 'necroassembler/cpu'], [('recording a fix-up', A + ':add_label_translation, parse_integer_or_label'), ('resolving fix-ups', A + ':_resolve_labels')])

prop('C07', 'Relative branches reach the label they name or are refused',
     'For every pc-relative operand of every supported CPU, the displacement encoded for a label is the one that makes the CPU reach that label\'s address from that instruction, for forward and backward targets over the whole reach of the field, at any origin. '
     'A target one step beyond the reach, or misaligned for the field, is refused at link time instead of being wrapped or rounded.',
     ['programs', 'inputs'], 'every pc-relative form of every CPU, every distance (all boundary distances of the field), several origins',
     'Tests assemble one or two branches per CPU over a short distance; no test sits at or beyond the limit of a field.',
     [A, 'necroassembler/cpu'], [('relative resolution', A + ':get_label_relative_address_by_name, _resolve_labels'), ('per-CPU pc base', 'necroassembler/cpu/*.py relative=')])

prop('C08', 'A label value that does not fit its field is never encoded',
     'Linking raises an error whenever a label, or an expression on one, has a value that is unknown, negative in an absolute field, wider than the field, or not a multiple of the alignment the operand requires; no bytes are saved from such a link. '
     'Values that do fit and are aligned are always accepted.',
     ['inputs', 'programs'], 'every field shape (bits, alignment, shift, signedness, byte order, offset in the instruction), all values around each limit',
     'One test checks one unknown label; no test links a label at or beyond the limit of a field.',
     [A, U, X], [('link-time checks', A + ':_resolve_labels'), ('bit range predicates', U + ':in_bit_range, in_bit_range_decimal, pack_bits')])

prop('C09', 'Bounded origins are padded exactly to their size and never overlap',
     'When an origin with an end address is followed by a higher origin or by the end of the source, the bytes it contributes are padded with the fill value up to and including its end, or up to the next origin when that lies inside it, so that in a chain of adjacent bounded regions every byte of the output sits at the file offset given by its address. '
     'An origin that would step back into a bounded region already filled, or whose end is below its start, is refused as an overlap.',
     ['programs', 'inputs'], 'every sequence of bounded and unbounded origins and every amount of data in each, including exactly full, one short and empty regions',
     'No test ever gives an origin an end address; README programs depend on it for the size of the ROM.',
     [A], [('region switch', A + ':change_org'), ('final padding', A + ':assemble')])

prop('C10', 'Padding directives land exactly on the requested position',
     'Fill emits exactly the requested number of bytes, align stops at the next multiple of its argument and emits nothing when already there, goto pads until the location counter equals its argument, and upto pads until the bytes since the current origin equal its argument; padding is the given value or else the target\'s fill value. '
     'A goto or upto target that lies behind the current position is refused as an overlap.',
     ['inputs', 'programs'], 'every position, argument, fill value and origin, including targets equal to and one below the current position',
     'Three tests use upto with the default value from an empty origin; goto, align, explicit fill values and backward targets are never exercised.',
     [A], [('padding directives', A + ':directive_fill/align/goto/upto')])

prop('C11', 'A macro call assembles exactly like its body written out by hand',
     'Invoking a macro of instructions emits the same bytes, fix-ups and errors as writing its body in place with every argument name replaced, simultaneously and also inside composite operands, by the tokens of the call, for any number of calls with any arguments, nested calls of other macros included, on every CPU. '
     'Recording a macro emits nothing, a call never changes the macro for later calls, redefinition affects only later calls, and names are matched without regard to case while labels and nested definitions inside a body are refused.',
     ['programs', 'inputs'], 'every macro body of instructions, argument list and sequence of calls',
     'Three tests use whole-token literal arguments; repeated calls with different arguments, name parts, nesting, labels and branches inside bodies are not covered.',
     [M, S, U], [('recording and expansion', M + ':Macro'), ('token substitution', U + ':substitute_with_dict')])

prop('C12', 'A define replaces exactly the whole names it matches from there on',
     'After a define, every later operand, mnemonic or part of a composite operand (delimited by characters that cannot be in a name) that equals the defined name is replaced once by the defined value, quoted text excepted, and any name that merely contains it is left alone; statements before the define, labels being defined and programs that never mention the name are unaffected. '
     'Defining a name again replaces its value for later statements only and disturbs no other name or literal.',
     ['programs', 'inputs'], 'every set of definitions (overlapping and prefix-sharing names included), every order of definitions, redefinitions and uses',
     'One test uses three defines in a single expression; prefixes, redefinition and order are not reached.',
     [A, S, U], [('define table', A + ':directive_define, register_define'), ('token substitution', U + ':substitute_with_dict')])

prop('C13', 'A repeat block equals its body written that many times',
     'A repeat block of instructions, data and RAM reservations emits exactly what writing its body N times emits, label references and relative branches to labels outside the block resolved separately in each copy, and leaves the location counter where the written-out program would. '
     'Nested repeats and a non-positive count are refused where they stand, a missing end at the latest at link, and none of them emits copies.',
     ['programs', 'inputs'], 'every body of instructions and data, count, position and origin',
     'One test repeats a single literal byte; bodies with labels, branches or more than one statement are never repeated.',
     [A], [('block copy', A + ':directive_repeat, directive_end_repeat')])

prop('C14', 'Included sources and imported data equal the same content written in place',
     'Including a source file emits the same bytes, labels, defines and macros as writing its text at that point, to any nesting depth and inside bounded origins. '
     'Importing a binary, CSV (8 or 16 bit) or JSON array emits exactly its bytes or values in order and advances the location counter by as many, and a value that does not fit or is not a number is refused without emitting part of the data. '
     'A file name is looked up from the working directory, wherever the source that names it is, every time it is named, and a file that is not there is refused; when the caller goes on after a failed include, later sources are assembled as if it had emitted nothing.',
     ['inputs', 'programs'], 'every split of a program over include files and every data file content',
     'No test includes or imports any file.',
     [A], [('include and import directives', A + ':directive_include/incbin/inccsv/inccsv_le16/incjson')])

prop('C15', 'Assembler instances are independent and results are reproducible',
     'What an assembler instance produces depends only on its class and on the sources given to it: other instances of the same or other CPUs or platforms, created before, after or interleaved statement by statement or in other threads, failed runs included, never change its bytes, labels, defines or errors, and no run changes a class. '
     'The same sources give the same bytes in every process, whatever the hash seed, and, for programs without bounded origins, whether passed as one text or statement by statement.',
     ['histories', 'schedules', 'configurations'], 'every interleaving of assembling steps over several instances and every set of classes',
     'One test checks one class attribute; tests never use two instances at the same time.',
     [A, 'necroassembler/cpu', 'necroassembler/platforms'], [('per-instance state', A + ':Assembler.__init__')])

prop('C16', 'Faulty source always fails, naming the statement at fault',
     'Assembling or linking a source with an unknown mnemonic or directive, operands no form accepts, a duplicate or malformed label, a misused block directive, a quote left open at the end of the source, or an undefined label raises an error instead of being accepted, and a faulty instruction statement emits no bytes. '
     'For a faulty instruction statement, an unknown directive or a bad label definition the error text carries its line number and, when a file name is known, that name, also inside included files and after blank lines, comments and CRLF line ends.',
     ['inputs', 'programs'], 'every program with one fault injected at any statement (a label that is never defined is only known at link, where the error names it), on every supported CPU',
     'Tests check four error types on one-line sources and no message content.',
     [S, T, X, A], [('error wrapping', S + ':Instruction.assemble'), ('line tracking', T + ':Tokenizer.parse'), ('messages', X)])

prop('C17', 'Custom opcodes, directives and link passes are honoured as declared',
     'A subclass that declares opcodes, directives and defines (by decorator under any number of names, by registration of a callable, or as fixed bytes) gets each of them invoked with the statement\'s substituted tokens exactly where it occurs and its returned bytes emitted at the location counter. '
     'Linking runs every pre-link pass once before any label is resolved and every post-link pass once after all are resolved and before the linker packages the bytes, inherited passes and passes added to an instance included.',
     ['configurations', 'programs'], 'every set of declarations, names and passes, and every program using them',
     'Tests declare one opcode and never a directive or a pass.',
     [A, S], [('decorators and discovery', A + ':opcode, directive, pre_link, post_link, _discover'), ('link sequence', A + ':link')])

prop('C18', 'The command line writes exactly the linked image, and only on success',
     'Running a CPU or platform front end with sources and a destination writes to the destination exactly the bytes that assembling those sources in order in one assembler and linking them yields, with the platform\'s own passes (the nes, gba, genesis and psx front ends take one source). '
     'If any source fails to assemble or link, the process ends with an error and the destination is not created or changed.',
     ['inputs', 'programs', 'fault_sequences'], 'every front end, every list of valid sources and every failing source',
     'No test runs a command line entry point or saves a file.',
     [A, 'necroassembler/platforms', 'necroassembler/cpu'], [('entry point', A + ':main, assemble_file, save')],
     ['destination file', 'exit status'])

prop('C19', 'Sections and exports describe the image, and ELF output is well formed',
     'Each section records the address where it starts, the offset of its first byte in the image and the number of bytes emitted in it, and consecutive sections account for every byte emitted since the first. '
     'Linking to ELF (32 or 64 bit, either byte order) yields a file whose headers, section table, section contents, names, permissions and symbol table of exported labels are read back by an independent ELF reader as exactly the assembled program (a symbol\'s value is relative to its section in relocatable files and absolute otherwise), and repeated names are refused.',
     ['programs', 'configurations'], 'every set of sections, permissions, contents and exported labels, every ELF configuration shipped',
     'No test uses a section, an export or the ELF linker.',
     [A, L, 'necroassembler/platforms/i386_elf32.py', 'necroassembler/platforms/ppc_elf32.py', 'necroassembler/platforms/x86_64_elf64.py'],
     [('section records', A + ':directive_section, directive_export'), ('ELF writer', L + ':ELF')])

prop('C20', 'The listing mode reports what was emitted and changes nothing',
     'Turning the log on, off or leaving it untouched at any points of a program never changes the bytes, labels or errors of that program. '
     'While it is on, every statement that emits bytes is listed once, in order, with exactly those bytes and their offset in the image, and every label stored in an operand or data field with its final bytes and place.',
     ['programs', 'histories'], 'every program and every placement of log directives',
     'No test turns the log on.',
     [A], [('log output', A + ':assemble, _resolve_labels, directive_log')], ['standard output', 'output bytes'])


def cpu(id, title, name, file, extra, text, why):
    prop(id, title,
         'Every %s instruction the assembler accepts is emitted as the byte sequence the processor manual gives for that mnemonic, addressing form and operand values (mnemonics and register names in any letter case), registers and numbers placed in their fields at full range; every form listed as supported stays accepted. ' % name + extra,
         ['inputs', 'programs'], text, why, [file], [('instruction encoders', file)], ['emitted bytes', 'exceptions'])


cpu('C21', '6502 instructions are encoded as the processor manual defines', '6502', 'necroassembler/cpu/mos6502.py',
    'The zero page form is chosen exactly when the form exists and the operand\'s value is known at that point and fits a byte, and addressing modes the processor does not have for a mnemonic are refused.',
    'all 56 mnemonics, every addressing mode (legal and not), every operand value class, literal and label operands',
    'The tests fix one operand value per form; illegal modes, index/zero-page boundaries and labels are mostly untested.')
cpu('C22', 'Z80 instructions are encoded as the processor manual defines', 'Z80', 'necroassembler/cpu/z80.py',
    'Operand combinations that the processor does not have are refused.',
    'the whole main, CB, ED, DD, FD, DDCB and FDCB instruction maps, every displacement and immediate class, literals and labels',
    'There is no test for this CPU at all.')
cpu('C23', 'Game Boy CPU instructions are encoded as the manual defines', 'LR35902', 'necroassembler/cpu/lr35902.py',
    'Operand combinations that the processor does not have are refused.',
    'the whole main and CB instruction maps, every immediate and address class, literals and labels',
    'Tests fix one operand value per opcode and few labels.')
cpu('C24', '8086 instructions are encoded as the processor manual defines', '8086', 'necroassembler/cpu/intel8086.py',
    'Memory operands encode the written base, index and displacement and no other, with a 16-bit displacement, and where several encodings of an instruction exist any one choice is made consistently.',
    'every mnemonic and operand form of the supported table, all registers, all base/index combinations, literal and label displacements and immediates',
    'Tests cover a few dozen fixed lines; memory operands with displacement and label operands are hardly tested.')
cpu('C25', 'MIPS32 instructions are encoded as the architecture defines', 'MIPS32', 'necroassembler/cpu/mips32.py',
    'The two byte orders differ only in the order of the bytes of each word; lui takes a 32-bit value and loads its upper half, and j and jal store bits 27..2 of their target.',
    'every supported mnemonic, all register names and numbers, immediate boundaries, literals and labels, both byte orders where available',
    'Tests assemble a short fixed list of lines; about half of the mnemonics are never assembled.')
cpu('C26', 'Thumb instructions are encoded as the architecture defines', 'Thumb', 'necroassembler/cpu/thumb.py',
    'Immediate operands that the encoding cannot hold (range or scale) are refused.',
    'every supported mnemonic and operand form, low and high registers, immediate boundaries and scaling, literals and labels',
    'Tests assemble a couple of dozen fixed lines.')
cpu('C27', '68000 instructions are encoded as the processor manual defines', '68000', 'necroassembler/cpu/mc68000.py',
    'Every effective address mode produces its mode and register bits and exactly its extension words, in source-then-destination order, and modes an instruction does not have are refused.',
    'every supported mnemonic, size and pair of effective address modes, displacement and immediate boundaries, literals and labels',
    'Tests assemble a couple of dozen fixed lines with few effective address pairs.')
cpu('C28', 'PowerPC instructions are encoded as the architecture defines', 'PowerPC', 'necroassembler/cpu/powerpc.py',
    'Record and overflow variants (trailing . and o) set exactly their bits.',
    'every mnemonic of the supported table, all registers, immediate boundaries, literals and labels',
    'There is no test for this CPU at all.')
cpu('C29', 'x86 instructions are encoded as the processor manual defines', 'x86', 'necroassembler/cpu/x86.py',
    'The code size selected with .bits (16, 32 or 64, which is the default) decides operand-size and address-size prefixes and the widths of immediates, displacements and jump targets. '
    'A memory operand is written [base], [base + index] or either with + or - and a displacement, blanks around the signs, and its displacement always takes the full width of the address size (16 or 32 bits).',
    'every register, immediate and memory form the assembler has in each code size (16, 32, 64), immediate boundaries, literals and labels',
    'There is no test for this CPU at all.')

prop('C30', 'Game Boy images carry a valid cartridge header and checksums',
     'A linked Game Boy image with a cartridge header (from the cartridge directive, or written as data) holds, at their fixed places, the boot logo, the title, licence and other fields given in the source, and the header and global checksums computed over the final bytes with labels resolved, and no other byte differs from the plain program. '
     'The cartridge directive is accepted only where the header must start.',
     ['inputs', 'programs'], 'every program and every combination of header fields, any image size from 32 KiB up',
     'No test assembles a Game Boy image.',
     ['necroassembler/platforms/gameboy.py'], [('header and checksum pass', 'necroassembler/platforms/gameboy.py')])
prop('C31', 'NES images carry a valid iNES header and symbol files match labels',
     'A linked NES image starts with a 16-byte iNES header whose PRG and CHR bank counts and flags are the ones given in the source and whose other bytes are zero, followed by the program unchanged. '
     'The name list files written next to it by the front end name every label at $8000-$FFFF (ROM) and $0000-$07FF (RAM) once with its address, each kind in its own file, and no other label.',
     ['inputs', 'programs'], 'every program, bank count and label set',
     'No test assembles a NES image.',
     ['necroassembler/platforms/nes.py'], [('header directives and symbol export', 'necroassembler/platforms/nes.py')])
prop('C32', 'GBA, Genesis and PlayStation images carry correct headers and checksums',
     'Linking adds to a GBA image the header complement check and to a Genesis image the 16-bit word sum of everything after the header, each computed over the final bytes and stored in its own field with every other byte left as assembled. '
     'A PlayStation executable is the 2048-byte PS-X EXE header naming the right load address, entry point (its start) and size of what follows, followed by the program padded to whole sectors.',
     ['inputs', 'programs'], 'every program content and size for each platform',
     'No test assembles an image for these platforms.',
     ['necroassembler/platforms/gba.py', 'necroassembler/platforms/genesis.py', 'necroassembler/platforms/psx.py'],
     [('post-link passes', 'necroassembler/platforms/gba.py, genesis.py'), ('EXE writer', 'necroassembler/platforms/psx.py')])
prop('C33', 'Imported images become tile data that decodes back to the same pixels',
     'The tile and pattern-table directives turn an indexed image into planar tile data for the console (Game Boy, Master System, NES) that decodes, tile by tile in the console\'s format and in row order, to exactly the pixels of the image. '
     'Images with wrong dimensions or pixel values the format cannot hold are refused rather than cropped or masked.',
     ['inputs'], 'every image of legal size and every pixel content',
     'No test imports an image.',
     ['necroassembler/platforms/gameboy.py', 'necroassembler/platforms/sms.py', 'necroassembler/platforms/nes.py'],
     [('tile converters', 'necroassembler/platforms/*.py')])

prop('C34', 'Operand fields are filled exactly as a CPU declares them',
     'When a CPU resolves an operand through the operand service (parse_integer_or_label), a literal within the declared range gives the handler its value (the two\'s complement of the range for a negative one in an unsigned field). A label, or expression on one, is stored when linking, for every origin, order of definition, repeat copy and source: its address, or its distance from the declared pc base, is checked against the declared range and alignment, passed through the declared filter, and combined into exactly the declared bits of the unit at the declared offset of the instruction, in the byte order of the CPU, leaving every other bit as the CPU emitted it. '
     'Several fields may share a unit or an instruction. With a hook, the hook is called exactly once per reference with the position in the image and the checked value, and nothing else is stored.',
     ['inputs', 'programs', 'configurations'], 'every combination of unit size, offset, bits, range, alignment, pc base, signedness, filter and hook a CPU can declare, every program using it',
     'Tests reach only the declarations of the shipped CPUs, mostly one label each; hooks and units shared by fields are never tested.',
     [A, U], [('operand service', A + ':parse_integer_or_label, add_label_translation'), ('placing', A + ':_resolve_labels; ' + U + ':pack_bits')])
prop('C35', 'Operand patterns match exactly the operands they describe',
     'match is true exactly when the statement has as many operands as patterns (from the given start) and each operand satisfies its pattern: None any operand, a word the same word in any letter case, a collection any of its words in any letter case, a function the operands it accepts. unbound_match asks the same of the operands at the start of the list only and tells where the rest begins, the match helper of utils asks it of any list, and apply gives the results of its functions on the operands in order, leaving out those without a function. Asking never changes the operands.',
     ['inputs', 'configurations'], 'every list of patterns, every list of operands and every start',
     'Tests use the patterns of the shipped CPUs with the operands of their few statements.',
     [S, U], [('patterns', S + ':Instruction.match, unbound_match, apply; ' + U + ':match')])
prop('C36', 'The packing services store every value exactly or refuse it',
     'Each packing function for CPU authors gives its arguments in order as integers of its width and byte order, negative values in two\'s complement, larger ones by their low bits and missing ones (None) as zero. Bit packing combines each value into exactly its bits of the base word and refuses reversed ranges and values that do not fit as unsigned or two\'s complement numbers; the range tests and neg_fix agree with arithmetic for every width, and valid names are made of ASCII letters, digits, underscores and dots only.',
     ['inputs'], 'every value, width, field and argument list',
     'The unit tests of these functions sample a handful of values each.',
     [U], [('packing', U + ':pack_*, neg_fix'), ('ranges', U + ':in_bit_range, in_bit_range_decimal'), ('names', U + ':is_valid_name')])
prop('C37', 'Predefined names of the consoles stand for the documented addresses',
     'Every name the Game Boy, NES and Master System front ends predefine stands, as a whole name in any operand, expression, origin or macro, for the address, port or command the console\'s documentation gives for it. Longer names that contain it, quoted text, the other front ends and the plain CPUs do not know it, and a program may define it anew.',
     ['inputs', 'programs', 'configurations'], 'every predefined name in every kind of use, in every order of front ends used in one process',
     'No test assembles for a console.',
     ['necroassembler/platforms/gameboy.py', 'necroassembler/platforms/nes.py', 'necroassembler/platforms/sms.py', U],
     [('tables of names', 'necroassembler/platforms/*.py:defines'), ('substitution', U + ':substitute_with_dict')])
prop('C38', 'Assembling any text ends, and only reads the files it names',
     'For any text whatever, on every CPU and console front end, assembling and linking ends with an image or an exception (never leaving the process, whatever calls or includes itself), in a number of steps that grows at most with the square of the size of source and image. Meanwhile nothing is opened for writing, no file is read that the source (or a file it includes) does not name, no process is started, no text is run as code, nothing is printed unless logging is on, and the working directory, environment and the files read stay as they were.',
     ['inputs', 'programs'], 'every text, well formed or not, for every CPU and front end',
     'Tests assemble short valid programs; no hostile text is ever fed to the assembler.',
     [A, S, T, M], [('statement loop', A + ':assemble'), ('state machine', T), ('includes and imports', A + ':directive_include, directive_inc*'), ('macro expansion', M)])
prop('C39', 'References the program cannot resolve go to the linker, whose answers are used',
     'When linking with a custom linker, it is asked exactly once for every operand field or data word whose label the sources do not define (bit fields of one word and copies made by a repeat count separately), with the position of that field in the image, the name as written, the size and the pc base, and for no other. What it answers fills the field under the rules of a label value (for relative fields: of a distance); if it raises, linking fails. It is then given the complete image once, after the passes that follow the resolving, and what it returns is the result. A subclass of the ELF linker gets each such reference in one relocate call, the fields left zero, as with the answer 0.',
     ['programs', 'inputs'], 'every program with names left to the linker, every declared operand shape',
     'No test links with anything but the default linker or an ELF linker without relocations.',
     [A, L], [('asking', A + ':_resolve_labels'), ('relocation', L + ':ELF.resolve_unknown_symbol, relocate, link')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
