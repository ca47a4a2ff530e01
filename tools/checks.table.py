NA = {}
EX = 'Exhaustive within the bounds reported in the evidence, seeded random histories beyond them. '
TR = 'Trusts the TLA+ module (its properties are checked on the model itself), TLC, and the recorder in harness/real.py.'
c('C01', 'both', 'Tokenizer.tla: all character sequences over an alphabet up to a length are tokenised by the model and by the code; longer random texts are validated the other way round. ' + TR)
for p in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C18', 'C32'):
    c(p, 'both', EX + TR)
c('C33', 'both', 'Pack.tla: all words of a small width with all pairs of ranges and values are packed by the model (invariants) and by the code; recorded calls on wide words beyond. ' + TR)
c('C16', 'both', 'Tools.tla: the command line tools as a machine over arguments, files and the assembler state; recorded runs of every tool (also through the installed names) are validated against it; nothing-written-early is an invariant of the machine. ' + TR)
c('C17', 'both', 'Elf.tla says which byte strings are objects of a program; every object written by the real linker is judged by it. ' + TR)
for p in ('C19', 'C20', 'C21'):
    c(p, 'both', EX + TR + (' PIL is not installed; images are read through a stand-in that serves the same pixel interface.' if p == 'C21' else ''))
c('C22', 'both', 'Tools.tla completes the images of the three tools; recorded runs are validated against it, the loader conditions are invariants. ' + TR)
ISA = 'Encoders derived from the architecture manuals (opcode fields, not tables of the code) in %s.tla; every mnemonic with every operand shape, operand values at the limits of each field, known and forward labels, legal and illegal, is assembled by the real code and judged by the model; programs over the instructions are enumerated. ' + TR
c('C34', 'both', 'Hardware.tla gives the names of the consoles; every name in every position, samples of all instruction forms and all short programs on the four platforms are judged by the specification of the platform. ' + TR)
c('C35', 'both', 'Gen.tla ends the source after any line (action Cut): all short programs with all ways to cut them are replayed in the code; random histories of texts and files are validated, and compared with the uncut program (Equiv.tla). ' + TR)
for p, m in (('C23', 'Mos6502'), ('C24', 'Z80'), ('C25', 'Lr35902'), ('C26', 'Mips32'), ('C27', 'Thumb'), ('C28', 'Mc68000'), ('C29', 'Intel8086'), ('C30', 'PowerPc')):
    c(p, 'both', ISA % m)
c('C31', 'both', 'Reach.tla decodes what each processor does with a displacement and requires every linked reference to reach its label: an invariant of every enumerated program of a processor, and judged on the recorded bytes of every program the real code links (distances at both limits, all placements, repeat blocks, several origins). ' + TR)
