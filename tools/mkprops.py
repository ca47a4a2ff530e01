import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=list(obs) or ['public API: assembled bytes, pc, label addresses, raised exception']
    d['anchors']['hook_needed']=None
    assert len(title)<=80,title
    P.append(d)
A='necroassembler/assembler.py';S='necroassembler/statements.py';T='necroassembler/tokenizer.py';U='necroassembler/utils.py';L='necroassembler/linker.py';M='necroassembler/macros.py'
C='necroassembler/cpu/';G='necroassembler/platforms/'
p('C01','Source text is split into exactly the statements and tokens it spells',
 'For every source text, the tokenizer yields in order one statement per non-empty line or label, classified as label, directive or instruction, whose tokens are exactly the words, single bracket characters and quoted texts (kept with their quotes, with backslash escapes resolved; an empty quoted text yields no token) written there; blanks and commas separate, a semicolon starts a comment up to the end of line, and quoted text is never split or taken for a comment. Every statement carries the number of the source line it was written on and the name of its source. A colon after other tokens and an unterminated quote are rejected, never silently dropped.',
 ['inputs'],'all character sequences','The 10 tokenizer tests sample a few fixed lines; they never combine separators, quotes, escapes, brackets, comments and labels, and never check line numbers of later statements.',
 [T],[('character state machine','Tokenizer.step/_state_*')],[('current_token/tokens/statements/line','lexer state','Tokenizer.__init__')],['Tokenizer(...).parse(text).statements'])
p('C02','Location counter and label addresses follow the emitted bytes',
 'After every statement the location counter equals the current origin plus the number of bytes emitted (or reserved) since that origin was set, and the address of a label is the location counter at its definition and never changes afterwards, whatever follows. Assembling a program in one call or in successive calls split at any statement boundary (outside bounded regions) gives the same counter, labels and bytes.',
 ['programs','histories'],'all sequences of statements and all splits into assemble calls','Tests look at the address of a label in a handful of straight-line programs.',
 [A,S],[('pc / append_assembled_bytes','Assembler.pc, append_assembled_bytes'),('label record','Label.assemble')],[('current_org, org_counter','origin and offset','Assembler.__init__'),('labels','name to origin+offset','Label.assemble')])
p('C03','Label references are patched into exactly their own field',
 'After linking, the field of every reference to a label (backward or forward, plain or in an expression) holds precisely the value that the label expression has, placed with the width, byte offset, bit position and endianness its instruction or directive declares, as an absolute address or as a displacement from the declared base (the operators of an expression then apply to the displacement). No other bit of the output differs from what was emitted before linking, and the result does not depend on whether the label was defined before or after its use.',
 ['programs'],'all programs, field shapes (size, bits, offset, bit range, filter, relative base), both byte orders','Tests fix up a single label at a time with one shape and check the final bytes only.',
 [A],[('add_label_translation/_resolve_labels','Assembler')],[('labels_addresses','pending references','Assembler.add_label_translation')])
p('C04','Unknown, duplicate and invalid names are always rejected',
 'Linking fails with the unknown-label error if any label reference, also one inside an expression, names a label that is never defined; no output with an unresolved reference is ever produced. Defining a label twice, or with a name that contains characters outside letters, digits, underscore and dot or that reads as a number, is rejected, and so are unknown instructions and unknown directives.',
 ['programs'],'all programs and all label names','One test checks one unknown label in one expression; nothing covers duplicates, odd names or references from other directives.',
 [A,S,L],[('resolve_unknown_symbol','linker.Dummy'),('Label.assemble checks','statements.Label')])
p('C05','No value is ever silently truncated into a field',
 'A literal or label value that does not fit the field it is written to is rejected: unsigned fields accept 0..2^n-1 plus decimal negatives down to -2^(n-1) (written as two\'s complement), signed decimal fields accept -2^(n-1)..2^(n-1)-1, PC-relative label displacements must fit the signed field, absolute label values must not be negative, and labels must respect the required alignment. Values inside these limits are accepted and written exactly; literals and labels obey the limits of the field, not of its storage.',
 ['inputs','programs'],'all values, field widths, signedness and alignments','The tests check an 11-bit and a 1-bit literal; label range, relative range and alignment checks are never exercised.',
 [A,U],[('range checks','parse_integer, in_bit_range, in_bit_range_decimal, _resolve_labels')])
p('C06','Integer literals have the value their notation denotes',
 'Each notation a CPU declares (hexadecimal, binary, octal and decimal prefixes and suffixes, plain decimal, character literals) denotes the mathematically corresponding number in every place where a number is accepted, and a token that is not a well-formed literal is never read as a number. The notations of one CPU do not leak into another.',
 ['inputs','configurations'],'all tokens times all notation sets, including those of the shipped CPUs','Tests use at most two literals per CPU, mostly hexadecimal.',
 [A,C+'mos6502.py',C+'z80.py',C+'lr35902.py',C+'mips32.py',C+'thumb.py',C+'mc68000.py',C+'intel8086.py',C+'powerpc.py'],[('literal parser','_internal_parse_integer'),('notation tables','class attributes of every CPU')])
p('C07','Expressions are evaluated left to right over exact integers',
 'An operand expression (a literal or label followed by + - * / & | and further literals or labels, optionally preceded by < and > byte selectors) has the value obtained by applying the selectors to the first term and then the operators strictly left to right over unbounded integers with floor division, a missing last operand counting as 1. The value is the same whether a term is written as a literal, through a define or through a label of that value, and labels inside expressions may be defined later when the first term is a label.',
 ['inputs','programs'],'all expressions and all values of the terms','Six tests evaluate fixed sums and one product and quotient of small values.',
 [A],[('_get_math_formula/apply_math_formula','Assembler')])
p('C08','Origin regions are laid out, padded and checked for overlap',
 'Setting a new origin after a bounded region pads that region with the fill value so that the output position corresponds to the address (to the end of the region if the new origin lies beyond it, up to the new origin if it lies inside), and the end of the source pads the last bounded region to its end: a bounded region whose contents fit occupies exactly its declared size. An origin that would overlap bytes already placed in the bounded region, or a region end before its start, is rejected.',
 ['programs','histories'],'all sequences of regions, contents and sizes including exactly full and one byte short','No test uses a region with an end.',
 [A],[('change_org and end-of-source fill','Assembler.change_org, Assembler.assemble')],[('current_org_end','region end','Assembler')])
p('C09','goto, upto, fill, align and ram move the location counter as requested',
 'After goto X the location counter is X, after upto N it is N bytes past the origin, after fill N it is N bytes further, after align N it is the next multiple of N (unchanged if already aligned), the gap being filled with the given or default fill byte; ram N advances the counter by N without emitting. A goto or upto behind the current position is rejected, never ignored.',
 ['programs'],'all statement sequences, sizes, fill bytes and origins','Three tests check only the number of bytes produced by upto, one the addresses after ram.',
 [A],[('directive_goto/upto/fill/align/ram','Assembler')])
p('C10','Data directives emit the written values in order, width and byte order',
 'Byte, word and long directives emit one element per operand in the order written, each in the width of the directive and the byte order of the CPU, quoted text as its characters (bytes for byte data, UTF-16 or UTF-32 with byte order mark for wider data), and label operands as the label value after linking. The decimal-text directives emit the decimal digits of their operands, zero-terminated in the z variants, and label operands as zero-padded digits of fixed width without disturbing neighbouring bytes.',
 ['inputs','programs'],'all operand lists','One test per width with a single operand.',
 [A],[('directive_db/dw/dd/*_to_ascii*','Assembler')])
p('C11','Included sources and data files appear exactly at the point of inclusion',
 'Including a source file is equivalent to writing its statements in place of the directive (at any nesting depth, also inside a bounded region, and with its own name and line numbers in diagnostics); including a binary, CSV or JSON file emits exactly its bytes or values in order, at the current position, in the requested width. Values that do not fit, labels and malformed entries are rejected.',
 ['inputs','programs'],'all file contents and nestings','No test includes any file.',
 [A],[('directive_include/incbin/inccsv/inccsv_le16/incjson','Assembler')])
p('C12','Macro invocation equals writing its body with arguments substituted',
 'Invoking a macro emits what its recorded instructions emit with every parameter occurrence (whole tokens and words inside expressions) replaced by the corresponding argument, and recording instructions emits nothing (directives inside a definition are not recorded: they take effect once, where they stand). Every invocation starts from the body as recorded, whatever previous invocations were given and even if one of them failed; macros may call other macros; nested definitions, labels inside a definition and a stray end are rejected.',
 ['programs','histories'],'all macro bodies, argument lists and invocation histories','Three tests invoke fixed macros with the same arguments.',
 [M,A,S],[('Macro.assemble','macros.Macro'),('recording','macro_start/macro_end')])
p('C13','A repeat block equals writing its body that many times',
 'A repeat block of count N produces the bytes, location counter and, after linking, the label references (absolute and PC-relative) that N consecutive copies of its body of data, instructions and ram reservations would produce (padding a layout directive of the body inserted is data of the block: it is copied verbatim). Nested repeats, a stray end and non-positive counts are rejected.',
 ['programs'],'all bodies (data, instructions, label references, reserved ram) and counts','One test repeats a constant byte.',
 [A],[('directive_repeat/directive_end_repeat','Assembler')])
p('C14','Defines substitute whole words, once, from the point of definition on',
 'After a define, every later occurrence of its name as a whole word (a maximal run of letters, digits, underscore and dot, also inside an expression or a quoted text) in an instruction or directive operand is replaced by its value, exactly once and case-sensitively; longer words that merely contain the name, earlier statements and label definitions are untouched. A later define of the same name replaces the value.',
 ['programs'],'all define tables and programs','One test uses defines in one expression.',
 [U,S,A],[('substitute_with_dict','utils'),('directive_define','Assembler')])
p('C15','Assembly is deterministic, per-instance and case-insensitive in keywords',
 'The same program assembled by two instances gives the same result whatever other instances, of the same or other CPUs, did before or in between: defines, macros, labels, notations and link passes of one instance never show up in another. Mnemonics, directives and macro names are recognised in any letter case unless the assembler is case sensitive; labels are always case-sensitive.',
 ['histories','programs','configurations'],'all interleavings of operations on several instances','One test checks that one class attribute is not shared.',
 [A,S],[('copies in the constructor','Assembler.__init__'),('key upper-casing','register_instruction/register_directive')])
p('C16','The command line tool writes exactly the linked image, or nothing',
 'Run on sources and a destination, every command line tool, also under the name the package installs it, assembles the sources in the given order as one program, links it and writes exactly the resulting bytes (for some platforms: completed as C20 and C22 say) to the destination. If assembling or linking fails, the error is reported and a previously existing destination keeps its contents; without at least one source and a destination nothing is written.',
 ['inputs','fault_sequences'],'all argument lists, program failures at every stage','The command line entry points are not tested at all.',
 [A],[('Assembler.main','Assembler')],obs=['exit status, destination file contents'])
p('C17','ELF objects describe exactly the sections and exported symbols',
 'Linking with the ELF linker yields a well-formed relocatable object of the declared class, byte order and machine in which every source section appears in order with its name, address, permissions, offset, size and exact bytes, and each exported label, and no other, is a global symbol in its section with the offset of the label from the start of that section. Every reference to an undefined symbol of the linked program is given exactly once, with its position, to the relocation method of the linker, and is reported if the linker has none; a linker object can be used again with the same outcome.',
 ['programs','configurations'],'all section layouts and export sets, 32/64 bit, both byte orders','No test links an ELF object.',
 [L,A,G+'i386_elf32.py',G+'ppc_elf32.py',G+'x86_64_elf64.py'],[('ELF.link','linker.ELF'),('directive_section/directive_export','Assembler')])
p('C18','Linking runs the passes in order and can be repeated',
 'Linking runs every pre-link pass before label resolution and every post-link pass after it, each exactly once per link and in registration order, passing the assembler to passes that are not its own methods. Linking a second time without new statements leaves the output unchanged, also with platform checksums, and unlinked output is never altered by queries.',
 ['histories'],'all sequences of assemble, query and link calls','Tests link once, and never register passes.',
 [A,L],[('Assembler.link','Assembler')])
p('C19','Game Boy cartridges get a valid header, fields and checksums',
 'The cartridge directive is accepted only when exactly 256 bytes precede it and emits the 80-byte header with entry jump and logo; each cartridge field directive writes only its own field, within its size, and is rejected without a header or when too long. After linking, header checksum and global checksum satisfy the Game Boy definitions for the final bytes, and all other bytes are untouched.',
 ['programs','inputs'],'all programs and field values','The platform is not tested.',
 [G+'gameboy.py'],[('cartridge directives and _fix','AssemblerGameboy')])
p('C20','NES images carry the requested iNES header and symbol files',
 'The NES cartridge directive is accepted only at the very start and emits a 16-byte iNES header; the PRG and CHR directives set exactly the PRG count (byte 4) and the CHR count (byte 5). The NES tool writes the linked image and two symbol files listing exactly the labels in $8000-$FFFF and in $0000-$07FF, one per line with address and name.',
 ['programs','inputs'],'all label sets and header values','The platform is not tested.',
 [G+'nes.py'],[('cartridge directives, main','nes')])
p('C21','Tile conversion emits every pixel once, in the bit planes of the platform',
 'Converting an indexed image emits its 8x8 cells row by row, and decoding the emitted bytes with the pixel format of the platform (Game Boy 2bpp interleaved, NES 2bpp planar, Master System 4bpp) gives back every pixel. Non-indexed images, unsupported sizes and pixel values beyond the palette are rejected.',
 ['inputs'],'all images','No test converts an image.',
 [G+'gameboy.py',G+'nes.py',G+'sms.py'],[('_build_tiles/_build_chr_pattern_table','platforms')])
p('C22','GBA, Genesis and PlayStation tools write loadable images',
 'The GBA tool stores the header complement check and the Genesis tool the 16-bit word sum from 0x200 on in their header locations and change no other byte of the linked image; the PlayStation tool writes, for a non-empty image, a 2048-byte executable header with load address, size and stack, followed by the linked image padded to a multiple of 2048 bytes.',
 ['inputs','programs'],'all images','The tools are not tested.',
 [G+'gba.py',G+'genesis.py',G+'psx.py'],[('main','platforms')],obs=['output files of the tools'])
def isa(id,name,file,extra=''):
    p(id,name+' instructions are encoded as the architecture defines',
     'Every documented instruction form of the '+name+' that the assembler supports, with every legal operand, is encoded to exactly the bytes the architecture defines, whether its operands are literals, defines or labels.'+extra+' Operand combinations that the instruction does not have, and operands outside their range, are rejected instead of being encoded as something else.',
     ['inputs','programs'],'all instruction forms times operand values (registers exhaustively, immediates at all boundaries)',
     'The tests sample some forms with one or two operand values each; rejection of illegal forms and label operands are hardly tested.',
     [file],[('opcode tables and operand matching',file)])
isa('C23','MOS 6502',C+'mos6502.py',' The zero-page form is chosen exactly when it exists and the operand is known to lie in page zero.')
isa('C24','Zilog Z80',C+'z80.py')
isa('C25','Sharp LR35902',C+'lr35902.py')
isa('C26','MIPS32',C+'mips32.py')
isa('C27','ARM Thumb',C+'thumb.py')
isa('C28','Motorola 68000',C+'mc68000.py')
isa('C29','Intel 8086',C+'intel8086.py')
isa('C30','PowerPC',C+'powerpc.py')
p('C31','Relative branches reach their target or are rejected',
 'For every CPU, a PC-relative branch, call or load naming a label is encoded with the displacement that makes the processor reach exactly that label from the address of the instruction, wherever both are placed; targets out of reach or not representable by the granularity of the displacement are rejected. This holds unchanged inside macros, repeat blocks and included files and behind any number of preceding bytes and origins.',
 ['programs'],'all CPUs, branch instructions, distances (both limits) and placements','Tests cover a few short branches per CPU and no distance limits.',
 [A,C+'mos6502.py',C+'z80.py',C+'lr35902.py',C+'mips32.py',C+'thumb.py',C+'mc68000.py',C+'intel8086.py',C+'powerpc.py'],[('relative label translation','_resolve_labels and the branch helpers of every CPU')])
p('C32','Diagnostics name the failing statement and logging changes nothing',
 'When an instruction is rejected, the error text contains the source line number, the source name (if any) and the tokens of that statement, also when it comes from a macro or an included file. Turning logging on or off anywhere in a program changes neither bytes, addresses, labels nor errors, and a wrong argument of the log directive is rejected.',
 ['programs'],'all programs and failing statements','No test looks at messages or logging.',
 [A,S],[('Statement.__str__ and exception rewriting','statements'),('directive_log','Assembler')])
p('C33','Bit-field packing combines disjoint fields without loss',
 'Packing values into bit ranges of a word yields the word whose ranges hold exactly the values (two\'s complement for negatives) and whose other bits are those of the base; a value that does not fit its range, or a reversed range, is rejected. The byte packers emit the value (0 if there is none) modulo the width in the named byte order and signedness.',
 ['inputs'],'all bases, ranges and values','Three tests pack fixed small values.',
 [U],[('pack_bits/pack_bit/pack_*','utils')],obs=['return value or exception of the packing functions'])
p('C34','Platform assemblers name the hardware and keep the conventions of their CPU',
 'On the Game Boy, NES and Master System every predefined name of the hardware stands for the address or value it has on the console, wherever a number can be written, as a whole word in its own spelling and until the program gives it another meaning; no platform knows the names of another. Apart from its names and its own directives, a platform assembler accepts and encodes the same programs (instructions, literals, data, directives, labels) as the assembler of its CPU, in the byte order of the platform: the PlayStation emits MIPS instructions and data little endian.',
 ['programs'],'all names, instructions and programs on the four platforms that have their own assembler','No platform is tested.',
 [G+'gameboy.py',G+'nes.py',G+'sms.py',G+'psx.py'],[('defines, byte order and directives of the platform assemblers','platforms')])
p('C35','Sources assembled one after another continue one program',
 'Labels and references to them, macros, defines, the origin and location counter, exports and the open section, repeat block or macro definition carry over from one source to the next, given as text or as files: a program cut between any of its lines into several sources gives the same bytes, addresses, label values and errors as in one source, except that the end of a source fills an open bounded region to its end. Errors name the source and the line within it.',
 ['histories','programs'],'all programs and all ways to cut them','Tests assemble one source per instance.',
 [A,S],[('Assembler.assemble/assemble_file','Assembler')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
print(len(P))
