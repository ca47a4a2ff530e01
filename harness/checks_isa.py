"""C23-C30: the instruction sets; C31: relative branches."""
import itertools, re
import real
from core import config, cpu_config, plat_config, CPU_NT, CPU_BIG, PLAT_NAMES
from progs import *

LAB = re.compile(r'(?<![\w.])([KF])_([0-9A-F]+)(?![\w.])')


def program(lines, org, hexp, epilogue=True):
    """The lines, each at address org, with the labels they name: K_x is defined before, F_x after them, at address x."""
    names = sorted(set(m.group(0) for l in lines for m in LAB.finditer(l)))
    src = []
    for n in names:
        if n[0] == 'K':
            src += ['.org %d' % int(n[2:], 16), n + ':']
    for l in lines:
        src += ['.org %d' % org, l]
    for n in names:
        if n[0] == 'F':
            src += ['.org %d' % int(n[2:], 16), n + ':']
    return '\n'.join(src) + '\n'


def _accepts(item):
    cfg, src = item
    out = real.run_ops(cfg, [dict(op='build', src=src, file='')])
    return not out[-1]['err']


NUMBER = re.compile(r"(?<![\w.$%@#'&<>+*/|-])(0x[0-9A-Fa-f]+|[$][0-9A-Fa-f]+|[0-9]+)(?![\w.:'+*/&|-])")


def respell(line, cfg, r):
    """The line with one of its numbers written as another literal or as an expression of the same value."""
    hexp = cfg['nt']['hexp'][0]
    def value(t):
        if t[0] == '$':
            return int(t[1:], 16) if '$' in cfg['nt']['hexp'] else None
        if t[:2] in ('0x', '0X'):
            return int(t, 16) if '0x' in cfg['nt']['hexp'] else None
        return int(t)
    found = [m for m in NUMBER.finditer(line) if value(m.group(1)) is not None and m.start() > line.find(' ') > 0]
    labs = [m for m in re.finditer(r'(?<![\w.$+*/&|<>-])[KF]_[0-9A-F]+(?![\w.+*/&|-])', line)]
    if not found and not labs:
        return None
    m = r.choice(found + labs)
    if m in labs:
        k = r.choice([1, 2, 3, 16])
        n = m.group(0) + r.choice(['+0', '*1', '-0', '+%d-%d' % (k, k), '-%d+%d' % (k, k), '*%d/%d' % (k, k), '|0', '+%s%x-%d' % (hexp, k, k)])
    else:
        v = value(m.group(1))
        k = r.choice([1, 2, 3, 5, 16])
        n = r.choice([m.group(1) + '+0', m.group(1) + '*1', '%d-%d' % (v + k, k), '%d+%d' % (v - k, k) if v >= k else m.group(1) + '|0', '%s%x-%d' % (hexp, v + k, k), '%s%x+%d' % (hexp, max(0, v - k), min(v, k)),
                      '%d*%d/%d' % (v, k, k), '%d/%d' % (v * k, k), '%s%X' % (hexp, v), str(v), '0%d' % v, hexp + '0%x' % v, '%d&%s%x' % (v, hexp, (1 << 32) - 1)])
    return line[:m.start()] + n + line[m.end():]


def vary(line, cfg, r, org):
    """The line with one of its numbers or labels replaced by another value (the line, whether it is a number)."""
    def value(v):
        near = org + r.choice([-1, 1]) * r.randrange(1 << r.choice([5, 7, 8, 9, 12, 16, 18]))
        n = r.choice([max(v.bit_length(), 2), 4, 8, 16, 32])
        x = r.choice([r.randrange(1 << n), v ^ (1 << r.randrange(max(v.bit_length(), 2))), v ^ r.randrange(1 << max(v.bit_length() - 1, 1)), max(near, 0), (1 << n) - 1 - r.randrange(4), 1 << (n - 1)])
        return x & r.choice([-1, -1, -2, -4])
    numbers = [m for m in NUMBER.finditer(line) if m.start() > line.find(' ') > 0 and (m.group(1).isdigit() or m.group(1)[:2] in cfg['nt']['hexp'] or m.group(1)[0] in cfg['nt']['hexp'])]
    labels = list(LAB.finditer(line))
    if not numbers and not labels:
        return None
    m = r.choice(labels or numbers) if r.random() < .8 else r.choice(numbers or labels)
    if m.re is LAB:
        n = r.choice('KF') + '_%X' % value(int(m.group(2), 16))
    else:
        t = m.group(1)
        v = value(int(t) if t.isdigit() else int(t.lstrip('$'), 16) if t[0] == '$' else int(t, 16))
        n = r.choice(['%d' % v, cfg['nt']['hexp'][0] + '%x' % v])
    return line[:m.start()] + n + line[m.end():], m.re is not LAB


def isa(c, part, cfg, lines, org=0x200, rejects=None, bundle=25, pre=(), optional=(), respelled=True, steady='$'):
    """Every line alone decides acceptance; accepted ones are bundled, rejected ones are kept alone; the model judges all."""
    if hasattr(c, 'collected'):
        return c.collected.append((lines, org, pre, optional, steady))
    optional = {l.upper() for l in optional}
    lines = list(dict.fromkeys(lines))
    for l in list(lines) if c.thorough and respelled else c.rnd.sample(lines, min(len(lines), 1200 if respelled else 0)):
        x = respell(l, cfg, c.rnd)
        if x and l not in [k['input'] for k in c.known]:
            lines.append(x)
            if l.upper() in optional or re.match('(?i)swi ', l):
                optional.add(x.upper())
    if respelled:
        for l in c.rnd.sample(lines, min(len(lines), c.n(2000, 12000))):
            x = vary(l, cfg, c.rnd, org) if not re.match(steady, l) else None
            if x and l not in [k['input'] for k in c.known]:
                lines.append(x[0])
                if x[1] or l.upper() in optional:
                    optional.add(x[0].upper())
        lines = list(dict.fromkeys(lines))
    pre = '\n'.join(pre) + '\n' if pre else ''
    ok = real.parallel(_accepts, [(cfg, pre + program([l], org, '')) for l in lines])
    listed = [k['input'] for k in c.known]
    good = [l for l, o in zip(lines, ok) if o and l not in listed]
    alone = [l for l, o in zip(lines, ok) if o and l in listed]
    bad = [l for l, o in zip(lines, ok) if not o and l.upper() not in optional]       # an optional form may be refused
    total = len(bad)
    if rejects is not None and len(bad) > rejects:
        bad = c.rnd.sample(bad, rejects)
    c.rnd.shuffle(good)
    def several(ls):
        return dict(cfg=cfg, ops=[dict(op='build', src=pre + program(ls, org, ''), file='')], loose=True, lines=ls)
    single = lambda l: several([l])
    cases = [several(good[i:i + bundle]) for i in range(0, len(good), bundle)] + [single(l) for l in alone + bad]
    before = len(c.fails)
    c.trace(part, cases)
    wrong = [l for f in c.fails[before:] for l in f['lines']]
    if len(c.fails) > before and len(wrong) > len(c.fails) - before:        # name the lines of the bundles that failed
        bundles, c.fails = c.fails[before:], c.fails[:before]
        c.trace(part, [single(l) for l in wrong[:3000]])
        if len(c.fails) == before:
            c.fails += bundles
    c.note(part, forms_accepted=len(good), forms_rejected=len(bad), rejected_by_the_code=total)


def num(v, cpu, r=None):
    """a spelling of the number v in the notation of the CPU"""
    nt = CPU_NT[cpu]
    k = r.randrange(4) if r else 0
    if v < 0 or k == 0:
        return str(v)
    if k == 1 and nt['binp'] and v < 256:
        return nt['binp'][0] + bin(v)[2:]
    h = nt['hexp'][0]
    return h + '%x' % v if k == 2 else h + '%X' % v


def edges(bits, align=1, signed=None):
    """values around the limits of a field of so many bits"""
    h, f = 1 << (bits - 1), 1 << bits
    v = {0, 1, 2, 3, 5, h - 2, h - 1, h, h + 1, f - 2, f - 1, f, f + 1, -1, -2, -h, -h - 1, -h + 1, -f, 2 * f}
    if align > 1:
        v |= {x // align * align for x in v} | {x // align * align + align for x in v} | {0, align, -align, align * (h - 1), align * h, -align * h, align * (f - 1), align * f, -align * (h + 1)}
    return sorted(v)


def interesting(bits, r, n=2):
    """a few values inside a field, with recognisable bit patterns"""
    f = 1 << bits
    return [0x5a5a5a5a & (f - 1), 0x12345678 & (f - 1)] + [r.randrange(f) for _ in range(n)]


def spread(lines, n, r):
    lines = list(dict.fromkeys(lines))
    return lines if len(lines) <= n else r.sample(lines, n)


# ------------------------------------------------------------------------------------------------ C23
OPS6502 = ('BRK CLC SEC CLI SEI CLV CLD SED NOP TAX TXA DEX INX TAY TYA DEY INY RTI RTS TXS TSX PHA PLA PHP PLP ADC AND ASL BPL BMI BVC BVS BCC BCS BNE BEQ '
           'BIT CMP CPX CPY DEC EOR INC JMP JSR LDA LDX LDY LSR ORA ROL ROR SBC STA STX STY').split()
MODES6502 = ['', ' A', ' #{0}', ' {0}', ' {0},X', ' {0},Y', ' ({0})', ' ({0},X)', ' ({0}),Y', ' ({0},Y)', ' ({0}),X', ' ({0}', ' #', ' # 1', ' {0} {1}', ' #{0},X', ' (#{0})', ' {0},A', ' ({0}),Y,X', ' [{0}]', ' (A)', ' A A',
             ' X', ' ({0},X),Y', ' (#{0},X)', ' (#{0}),Y', ' #{0} #{1}', ' "a"', " #'a'"]


def C23(c):
    r = c.rnd
    cpu = '6502'
    k = cpu_config(cpu)
    short = ['5', '$fe', '255', '256', '$100', '65535', '65536', '-1', '-128', '-129', '-32768', '-32769', '$1234', 'K_0', 'K_80', 'K_FF', 'K_100', 'K_FFFF', 'K_10000', 'F_7', 'F_FF', 'F_100', 'F_1234', 'F_10000',
             '<K_1234', '>K_1234', '<F_1234', '>F_1234', 'K_FE+1', 'K_FF+1', 'K_101-2', 'K_1-2', 'F_FE+1', 'nolabel', '$10+K_20', '%101', '@17', 'DEF', 'DEF+1', "'a'", '<$1234', 'K_200', 'F_27F', 'F_280', 'F_281', 'F_282', 'K_182', 'K_181', 'F_202', 'K_202']
    few = ['$12', '$1234', 'K_12', 'F_1234', '<F_1234', 'DEF', '256']
    lines = []
    for op in OPS6502:
        for m in MODES6502:
            for v in (short if '{0}' in m and '{1}' not in m and m in (' #{0}', ' {0}', ' {0},X', ' {0},Y', ' ({0})', ' ({0},X)', ' ({0}),Y') else few[:3]):
                o = op if r.random() < .7 else r.choice([op.lower(), op.capitalize()])
                lines.append(o + (m.lower() if r.random() < .2 and 'A' in m else m).format(v, r.choice(few)))
    lines += ['NOPE', 'LDB 1', 'LDA,5', 'LDA', 'SAX 5', 'BRA K_200', 'STZ 5']
    main = [l for l in lines]
    k['defines'] = {}
    isa(c, 'instructions', k, spread(main, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=['.define DEF $34'], optional=[o + ' $fe' for o in OPS6502 if o[0] == 'B'])
    c.gen('programs', ['LDA z', 'LDA l', 'z: .db 1', '.org $80', '.org $1000', 'l: LDX #l', 'BNE l', 'STA (z),Y', 'JMP (l)'], k, c.n(4, 5))
    if c.thorough:
        extra = []
        for v in range(0, 65536, 257):
            extra += ['LDA %d' % v, 'LDA ($%x),Y' % v, 'JMP $%X' % v, 'LDX #%d' % (v & 255), 'BNE %d' % ((v & 255) - 128)]
        isa(c, 'values', k, extra, rejects=500)


def cross(forms, **pools):
    """all spellings of the forms: {x} is replaced by every member of pools[x]"""
    out = []
    for f in forms:
        names = list(dict.fromkeys(re.findall(r'\{(\w+)\}', f)))
        for combo in itertools.product(*[pools[n] for n in names]):
            s = f
            for n, v in zip(names, combo):
                s = s.replace('{%s}' % n, v)
            out.append(s)
    return out


def casing(lines, r, p=.15):
    """some mnemonics and registers in other cases (labels keep theirs)"""
    def other(l):
        return re.sub(r'(?<![\w.$%])(?![KF]_)[A-Za-z]+(?![\w.])', lambda m: r.choice([m.group(0).lower(), m.group(0).upper(), m.group(0).capitalize()]), l)
    return [other(l) if r.random() < p and "'" not in l and '"' not in l and 'DEF' not in l else l for l in lines]


# ------------------------------------------------------------------------------------------------ C24
VAL8 = ['0', '1', '127', '128', '255', '256', '-1', '-128', '-129', '$5A', '%1011', "'a'", 'K_0', 'K_7F', 'K_80', 'K_FF', 'K_100', 'F_5', 'F_FF', 'F_100', '<K_1234', '>F_1234', 'K_5+3', 'nolabel', 'DEF', 'DEF+1']
VAL16 = ['0', '255', '256', '65535', '65536', '-1', '-32768', '-32769', '$1234', '%1111000010101', 'K_0', 'K_FF', 'K_1234', 'K_FFFF', 'K_10000', 'F_12', 'F_1234', 'F_8001', 'F_10000', 'K_1200+$34', '<F_1234', 'nolabel', 'DEF', "'z'", '$FF12', '$FF00', '$ff80', '$FEFF', '$fffe', 'K_FF12', 'F_FF80', '$FF10+2', '$ff00+18', '65298']
DIST8 = ['0', '5', '127', '128', '-1', '-128', '-129', '255', 'K_200', 'K_202', 'K_201', 'K_182', 'K_181', 'K_183', 'F_202', 'F_203', 'F_280', 'F_281', 'F_282', 'F_301', 'F_302', 'K_0', 'F_FFFF', 'nolabel', 'F_202+1', '<F_1202', '$7f', '$80', '$fe', '$ff', '$100', '%11111110']


def C24(c):
    r = c.rnd
    k = cpu_config('z80')
    r8 = ['A', 'B', 'C', 'D', 'E', 'H', 'L']
    hx = ['IXH', 'IXL', 'IYH', 'IYL']
    r16 = ['BC', 'DE', 'HL', 'SP', 'IX', 'IY', 'AF']
    other = ['I', 'R', 'F', 'PC', 'NZ', 'IZ']
    idx = ['(I%s%s%s)' % (a, s, d) for a in 'XY' for s, d in (('+', '5'), ('-', '3'), ('+', 'K_12'), ('+', 'F_7F'), ('+', '0'))]
    idxe = ['(I%s+%s)' % (a, d) for a in 'XY' for d in ('127', '128', '255', '-1', '$80', '$ff', 'K_7F', 'K_80', 'K_FF', 'F_0', 'F_80', 'nolabel', 'DEF', 'K_10+4', '$7f', '%1010', '')] + \
        ['(I%s-%s)' % (a, d) for a in 'XY' for d in ('127', '128', '129', '0', '$10', '')]
    ind = ['(%s)' % x for x in ['HL', 'BC', 'DE', 'SP', 'IX', 'IY', 'C', 'A', 'AF']]
    val = ['7', '$1234', 'K_12', 'F_1234', '256']
    mem = ['(%s)' % v for v in val]
    everything = r8 + hx + r16 + other + idx[:6] + ind + val[:3] + mem[:3]
    cc = ['NZ', 'Z', 'NC', 'C', 'PO', 'PE', 'P', 'M']
    L = cross(['LD {a},{b}'], a=everything, b=everything)
    L += cross(['{o} A,{x}', '{o} {x}'], o=['ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP'], x=everything)
    L += cross(['{o} {x},{y}'], o=['ADD', 'ADC', 'SBC', 'EX', 'IN', 'OUT'], x=r16 + ['(SP)', '(HL)', 'B'], y=r16 + ['5', '(C)', 'A'])
    L += cross(['{o} {x}'], o=['INC', 'DEC', 'PUSH', 'POP', 'RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SLL', 'SRL', 'JP', 'CALL', 'JR', 'DJNZ', 'RET', 'RST', 'IM'], x=everything + cc)
    L += cross(['{o} {b},{x}'], o=['BIT', 'RES', 'SET'], b=list('01234567') + ['8', '-1', 'A'], x=r8 + idx[:6] + ['(HL)', '(BC)', 'IXH', 'BC', '5'])
    L += cross(['{o} {c},{x}'], o=['JP', 'CALL', 'JR', 'RET'], c=cc + ['A', '(C)', 'NN'], x=['$210', 'K_1F0', 'F_220', '5', '(HL)', 'HL', 'A'])
    L += cross(['IN {a},({p})', 'OUT ({p}),{a}'], a=r8 + ['F', 'HL', '5'], p=['C', 'B', '$7F', 'K_10', 'F_FF', '256'])
    L += cross(['RST {v}'], v=['0H', '8H', '10H', '18H', '20H', '28H', '30H', '38H', '40H', '1H', '0', '8', '$38'])
    L += ['%s%s' % (o, s) for o in 'NOP RLCA RRCA RLA RRA DAA CPL SCF CCF HALT EXX DI EI NEG RETN RETI RRD RLD LDI CPI INI OUTI LDD CPD IND OUTD LDIR CPIR INIR OTIR LDDR CPDR INDR OTDR RET MULT LDA'.split() for s in ('', ' A', ' 5', ' (HL)')]
    L += ['EX DE,HL', 'EX HL,DE', 'EX AF,AF', 'EX (SP),HL', 'EX (SP),IX', 'EX (SP),IY', 'EX HL,(SP)', 'JP (HL)', 'JP (IX)', 'JP (IY)', 'JP (BC)', 'IM 0', 'IM 1', 'IM 2', 'IM 3',
          'LD A', 'LD', 'LD A,B,C', 'LD (HL', 'LD A,(HL', 'LD A,HL)', 'LD ((HL)),A', 'JR', 'JP', 'JP NZ', 'CALL NZ', 'DJNZ B,5', 'RET NZ,5', 'ADD A', 'BIT 1', 'INC', 'LD [HL],A', 'LD A,[5]']
    L += cross(['LD {r},{v}', 'ADD A,{v}', 'CP {v}', 'LD (HL),{v}', 'LD (IX+1),{v}', 'LD (IY-2),{v}', 'OUT ({v}),A', 'IN A,({v})'], r=['A', 'B', 'L', 'IXH', 'IYL'], v=VAL8)
    L += cross(['LD {r},{v}', 'LD {r},({v})', 'LD ({v}),{r}', 'JP {v}', 'CALL {v}', 'JP M,{v}', 'CALL PO,{v}', 'LD A,({v})'], r=['BC', 'HL', 'SP', 'IX', 'IY'], v=VAL16)
    L += cross(['LD A,{x}', 'LD {x},B', 'LD {x},9', 'ADD A,{x}', 'INC {x}', 'RLC {x}', 'BIT 3,{x}', 'SET 7,{x}', 'LD {x},K_10'], x=idxe)
    L += cross(['JR {v}', 'JR NZ,{v}', 'JR C,{v}', 'DJNZ {v}'], v=DIST8)
    L = casing(L, r)
    # IM 0 and IN F,(C) style undocumented forms are left out
    isa(c, 'instructions', k, spread(L, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=['.define DEF $34'])
    c.gen('programs', ['LD A,(z)', 'LD HL,l', 'z: .db 1', '.org $80', '.org $1000', 'l: LD (IX+d),z', 'd: JR NZ,l', 'DJNZ d', 'CALL M,z'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C25
def C25(c):
    r = c.rnd
    k = cpu_config('lr35902')
    r8 = ['A', 'B', 'C', 'D', 'E', 'H', 'L']
    r16 = ['BC', 'DE', 'HL', 'SP', 'AF']
    other = ['F', 'HL+', 'HL-', 'NZ', 'Z', 'NC', 'PC', 'IX']
    ind = ['(%s)' % x for x in ['HL', 'HL+', 'HL-', 'BC', 'DE', 'SP', 'C', 'A', 'AF']] + ['[HL]', '[HL+]', '[HL-]', '[BC]', '[C]', '(HL]', '[DE']
    val = ['7', '$1234', 'K_12', 'F_1234', '256']
    mem = ['(%s)' % v for v in val] + ['[$1234]', '[K_12]', '($FF00+$40)', '[$FF00+K_12]', '($FF00+F_34)', '($FF00+256)', '($FF00+C)', '[$FF00+C]']
    everything = r8 + r16 + other + ind + val[:3] + mem
    cc = ['NZ', 'Z', 'NC', 'C']
    alu = ['ADD', 'ADC', 'SUB', 'SBC', 'AND', 'XOR', 'OR', 'CP']
    single = ['SUB', 'AND', 'XOR', 'OR', 'CP']
    optional = set(cross(['{o} A,{x}'], o=single, x=everything) + cross(['{o} {x}'], o=['ADD', 'ADC', 'SBC'], x=everything) +
                   ['LD A,($FF00+C)', 'LD A,[$FF00+C]'])
    L = cross(['LD {a},{b}'], a=everything, b=everything)
    L += cross(['{o} {x}', '{o} A,{x}'], o=alu, x=everything)
    L += cross(['{o} {x},{y}'], o=['ADD', 'ADC', 'SBC', 'LDH'], x=r16 + ['(HL)', 'B'], y=r16 + ['5', '(C)', 'A'])
    L += cross(['{o} {x}'], o=['INC', 'DEC', 'PUSH', 'POP', 'RLC', 'RRC', 'RL', 'RR', 'SLA', 'SRA', 'SWAP', 'SRL', 'JP', 'CALL', 'JR', 'RET', 'RST', 'STOP'], x=everything + cc)
    L += cross(['{o} {b},{x}'], o=['BIT', 'RES', 'SET'], b=list('01234567') + ['8', '-1', 'A'], x=r8 + ['(HL)', '[HL]', '(BC)', '(HL+)', 'BC', '5', 'F'])
    L += cross(['{o} {c},{x}'], o=['JP', 'CALL', 'JR', 'RET'], c=cc + ['A', 'PO', '(C)'], x=['$210', 'K_1F0', 'F_220', '5', '(HL)', 'HL', 'A'])
    L += cross(['RST {v}'], v=['00H', '08H', '10H', '18H', '20H', '28H', '30H', '38H', '40H', '0H', '0', '8', '$38'])
    L += ['%s%s' % (o, s) for o in 'NOP RLCA RRCA RLA RRA DAA CPL SCF CCF HALT DI EI RETI STOP RET EXX NEG LDI'.split() for s in ('', ' A', ' 5', ' (HL)', ' 0', ' 0,0')]
    L += ['LD A', 'LD', 'LD A,B,C', 'LD (HL', 'LD A,(HL', 'LD A,HL)', 'LD ((HL)),A', 'JR', 'JP', 'JP NZ', 'CALL NZ', 'RET NZ,5', 'ADD A', 'BIT 1', 'INC', 'JP (HL)', 'JP [HL]', 'JP HL', 'JP (BC)', 'LDH A,(5),6']
    sp = ['SP+5', 'SP-5', 'SP+127', 'SP+128', 'SP-128', 'SP-129', 'SP+-3', 'SP+K_10', 'SP+K_7F', 'SP+K_80', 'SP+F_7F', 'SP+F_FF', 'SP+nolabel', 'SP+$7f', 'SP', 'SP+', 'SP+K_5+1', 'SP+$ff', 'SP+$80']
    L += cross(['LD {r},{x}'], r=['HL', 'A', 'BC', 'SP', '(HL)'], x=sp) + ['LD HL,SP+5,6']
    L += cross(['ADD SP,{v}'], v=VAL8 + ['-3', 'K_10', 'F_20'])
    L += cross(['LD {r},{v}', 'ADD A,{v}', 'CP {v}', 'LD (HL),{v}', 'LDH ({v}),A', 'LDH A,({v})', 'LD ($FF00+{v}),A', 'LD A,[$FF00+{v}]', 'XOR {v}'], r=['A', 'B', 'L'], v=VAL8 + ['@17'])
    L += cross(['LD {r},{v}', 'LD ({v}),SP', 'LD [{v}],A', 'JP {v}', 'CALL {v}', 'JP NC,{v}', 'CALL NZ,{v}', 'LD A,({v})'], r=['BC', 'DE', 'HL', 'SP'], v=VAL16)
    L += cross(['JR {v}', 'JR NZ,{v}', 'JR C,{v}'], v=DIST8)
    isa(c, 'instructions', k, spread(casing(L, r), c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=['.define DEF $34'], optional=optional)
    c.gen('programs', ['LD A,(z)', 'LD HL,l', 'z: .db 1', '.org $80', '.org $1000', 'l: ADD SP,z', 'd: JR NZ,l', 'LDH (z),A', 'CALL NC,z'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C26
MREG = 'zero at v0 v1 a0 a1 a2 a3 t0 t1 t2 t3 t4 t5 t6 t7 s0 s1 s2 s3 s4 s5 s6 s7 t8 t9 k0 k1 gp sp fp ra'.split()
THREE_M = ['add', 'addu', 'sub', 'subu', 'and', 'or', 'xor', 'nor', 'slt', 'sltu', 'sllv', 'srlv', 'srav']
IMM_M = ['addi', 'addiu', 'slti', 'sltiu', 'andi', 'ori', 'xori']


def C26(c):
    r = c.rnd
    k = cpu_config('mips32')
    regs = ['$' + x for x in MREG] + ['$%d' % i for i in range(32)]
    bad = ['$32', '$-1', '$x0', '$', '$00', '$s8', 't0', '5', '($t0)']
    few = lambda n: r.sample(regs, n)
    L = []
    for o in THREE_M:
        L += ['%s %s,%s,%s' % (o, x, *few(2)) for x in regs] + ['%s %s,%s,%s' % (o, few(1)[0], x, few(1)[0]) for x in regs] + ['%s %s,%s,%s' % (o, *few(2), x) for x in regs]
        L += ['%s %s,%s,%s' % (o, *[r.choice(bad) if j == i else r.choice(regs) for j in range(3)]) for i in range(3) for _ in range(3)]
        L += ['%s %s,%s' % (o, *few(2)), '%s %s' % (o, *few(1)), o, '%s %s,%s,%s,%s' % (o, *few(4)), '%s %s,%s,5' % (o, *few(2))]
    for o in ['mult', 'multu', 'div', 'divu']:
        L += ['%s %s,%s' % (o, x, *few(1)) for x in regs] + ['%s %s,%s' % (o, *few(1), x) for x in regs + bad] + ['%s %s' % (o, *few(1)), o, '%s %s,%s,%s' % (o, *few(3))]
    for o in ['mfhi', 'mflo', 'mthi', 'mtlo', 'jr', 'jalr']:
        L += ['%s %s' % (o, x) for x in regs + bad] + [o, '%s %s,%s' % (o, *few(2))]
    optional = {l for l in L if l.startswith('jalr') and ',' in l}
    for o in ['syscall', 'break', 'nop', 'move', 'li', 'bltz', 'lwl', 'mul']:
        L += [o, o + ' 5', o + ' $t0', o + ' $t0,5', o + ' $t0,$t1']
    v16 = ['0', '1', '-1', '32767', '32768', '65535', '65536', '-32768', '-32769', '0x5a5a', '0x7fff', '0x8000', '0xffff', '0x10000', '0b1011', "'a'", 'K_0', 'K_1234', 'K_7FFF', 'K_FFFF', 'K_10000', 'F_8', 'F_8000', 'F_10000',
           '<<K_12345678', '>>K_12345678', '<<F_8765FFFF', '>>F_8765FFFF', 'K_1230+4', 'nolabel', 'DEF', 'DEF+4', 'DEF*DEF']
    wide = {'32768', '65535', '0x8000', '0xffff', '-1', '-32768'}
    for o in IMM_M:
        ls = ['%s %s,%s,%s' % (o, *few(2), v) for v in v16 for _ in range(2)] + ['%s %s,%s,%s' % (o, x, *few(1), v) for x, v in zip(regs, itertools.cycle(['7', 'K_1234', 'F_8']))] + \
             ['%s %s,%s,%s' % (o, *few(1), x, v) for x, v in zip(regs + bad, itertools.cycle(['7', 'K_1234', '0x700']))]
        # the sign of an immediate may be insisted on
        optional |= {l for l in ls if l.split(',')[2] in wide and (l.split(',')[2][0] == '-') == (o in ('andi', 'ori', 'xori'))}
        L += ls + ['%s %s,5' % (o, *few(1)), '%s %s,%s,5,6' % (o, *few(2)), '%s 5,%s,%s' % (o, *few(2))]
    for o in ['sll', 'srl', 'sra']:
        L += ['%s %s,%s,%s' % (o, *few(2), v) for v in [str(i) for i in range(34)] + ['-1', '0x1f', '0x20', 'K_0', 'K_1F', 'K_20', 'F_8', 'F_21', '<K_F', 'DEF', 'nolabel']]
        L += ['%s %s,%s,%s' % (o, x, *few(1), '5') for x in regs] + ['%s %s,%s,%s' % (o, *few(1), x, '17') for x in regs + bad]
        optional |= {l for l in L if l.startswith(o + ' ') and l.endswith(',-1')}
    for o in ['lui', 'lhi', 'llo']:
        L += ['%s %s,%s' % (o, *few(1), v) for v in ['%s_%X' % (r.choice('KF'), r.choice([r.randrange(1 << 32), r.randrange(1 << 16) * 65536 + 0x8000, r.randrange(1 << 16) * 65536 + 0x7fff, r.randrange(65536)])) for _ in range(16)] + ['0', '5', '0x12345678', '65535', '65536', '0xffffffff', '0x100000000', '4294967295', '4294967296', '-1', '-2147483648', '-2147483649', 'K_12345678', 'F_87654321', 'F_FFFF8000', 'F_7FFF', 'K_100000000', '<<K_12345678',
                                                    '0x12340000+0x5678', 'nolabel', 'DEF', "'z'"]] + ['%s %s,0x8001fffe' % (o, x) for x in regs + bad] + [o + ' $t0', o + ' $t0,1,2', o + ' $t0,$t1']
    for o in ['lb', 'lbu', 'lh', 'lhu', 'lw', 'sb', 'sh', 'sw']:
        L += ['%s %s,%s(%s)' % (o, few(1)[0], v, few(1)[0]) for v in v16] + ['%s %s,%s(%s)' % (o, x, r.choice(['0', '4', '-4', '0x7fff']), few(1)[0]) for x in regs + bad] + ['%s %s,%s(%s)' % (o, few(1)[0], r.choice(['0', '4', '-4']), x) for x in regs + bad]
        optional |= {l for l in L if l.startswith(o + ' ') and any(',%s(' % v in l for v in wide)}
        L += [o + ' $t0,($t1)', o + ' $t0,5', o + ' $t0,$t1', o + ' $t0,5($t1', o + ' $t0,5[$t1]', o + ' $t0,5($t1),4']
    d = ['0', '4', '-4', '131068', '131072', '-131072', '-131076', '2', '5', '-1', '0x100', 'K_200', 'K_1FC', 'K_204', 'F_204', 'F_208', 'F_20200', 'F_20204', 'F_20208', 'F_202', 'F_205', 'K_1', 'F_200C', 'nolabel', 'F_204+4', 'F_204+2', 'DEF', '<<F_10204']
    for o in ['beq', 'bne']:
        L += ['%s %s,%s,%s' % (o, *few(2), v) for v in d] + ['%s %s,%s,F_300' % (o, x, *few(1)) for x in regs + bad] + ['%s %s,%s,K_100' % (o, *few(1), x) for x in regs + bad] + [o + ' $t0,F_300', o + ' F_300']
    for o in ['blez', 'bgtz']:
        L += ['%s %s,%s' % (o, *few(1), v) for v in d] + ['%s %s,F_300' % (o, x) for x in regs + bad] + [o + ' $t0,$t1,F_300', o + ' F_300']
    for o in ['j', 'jal', 'trap']:
        L += ['%s %s' % (o, v) for v in ['0', '4', '0x1000', '0xffffffc', '268435452', 'K_0', 'K_200', 'F_1234', 'F_FFFFFFC', 'F_10000000', 'F_80010000', 'F_100000000', 'nolabel', '$t0', 'K_100+8', 'DEF*4', '-4', '0x10000000', '0x80010000']] + [o, o + ' 4,4']
        optional |= {o + ' ' + v for v in ('-4', '0x10000000', '0x80010000')}
    L = [l for l in L if l not in optional or r.random() < .5]
    cased = casing(L, r, .1)
    pre = ['.define DEF 52']
    isa(c, 'instructions', k, spread(cased, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=pre, optional=optional, steady='(?i)(j|jal|trap) ')
    isa(c, 'misaligned jumps', k, [o + ' ' + v for o in ('j', 'jal', 'trap') for v in ('F_202', '0x202')], pre=pre, steady='(?i)(j|jal|trap) ')
    hi = ['%s %s' % (o, v) for o in ('j', 'jal') for v in ('K_80010000', 'F_80010000', 'F_8FFFFFFC', 'F_90000000', 'K_1000', 'K_7FFFFFFC', 'F_BFC00000', 'K_100')] + \
        ['beq $t0,$t1,F_8002FFFC', 'beq $t0,$t1,F_80030004', 'bne $0,$0,K_80010000', 'lui $t0,K_80010004', 'ori $t0,$t0,<<F_8001FFF0']
    isa(c, 'upper regions', k, hi, org=0x80010000, pre=pre, steady='(?i)(j|jal|trap) ')
    # the delay slot of the last word of a region belongs to the next one
    isa(c, 'region limits', k, ['%s %s' % (o, v) for o in ('j', 'jal') for v in ('F_90000000', 'F_90000010', 'F_9FFFFFFC', 'K_80000000', 'K_8FFFFFF0', 'F_A0000000')], org=0x8ffffffc, pre=pre, steady='(?i)(j|jal|trap) ')
    c.gen('programs', ['lui $t0,z', 'ori $t0,$t0,<<l', 'z: .dd 1', '.org 0x80', '.org 0x1000', 'l: lw $t1,4($t0)', 'd: beq $t1,$0,l', 'bgtz $t1,d', 'j z'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C27
def C27(c):
    r = c.rnd
    k = cpu_config('thumb')
    lo = ['r%d' % i for i in range(8)]
    hi = ['r%d' % i for i in range(8, 16)] + ['fp', 'ip', 'sp', 'lr', 'pc']
    bad = ['r16', 'r-1', 'a1', 'r08', '5', '#5', 'rx', 'apsr', '[r1]', 'r']
    regs = lo + hi
    few = lambda n: r.sample(lo, n)
    optional = set()
    alu = 'AND EOR LSL LSR ASR ADC SBC ROR TST NEG CMP CMN ORR MUL BIC MVN'.split()
    L = cross(['{o} {a},{b}'], o=alu, a=lo, b=lo)
    L += cross(['{o} {a},{b}'], o=alu + ['SUB'], a=['r1'] + hi + bad, b=['r2'] + hi + bad)
    L += cross(['{o} {a},{b}'], o=['ADD', 'CMP', 'MOV'], a=regs, b=regs)
    L = [l for l in L if not (l.startswith('MOV') and all(x in lo for x in l[4:].split(',')))]
    optional |= {l for l in L if l[:3] == 'ADD' and all(x in lo for x in l[4:].split(','))}
    L += cross(['{o} {a},{b},{d}'], o=['ADD', 'SUB'], a=lo, b=lo, d=lo)
    for o in ['ADD', 'SUB', 'LSL', 'LSR', 'ASR']:
        L += ['%s %s,%s,%s' % (o, *[r.choice(bad + hi) if j == i else r.choice(lo) for j in range(3)]) for i in range(3) for _ in range(12)]
        L += ['%s %s' % (o, x) for x in ('r1', 'r1,', 'r1,r2,r3,r4', 'r1,r2,#1,#1', '', '#1', 'r1,#1,r2', 'r1,r2,#', 'r1,r2,1', 'r1,r2,#K_1', 'r1,r2,#F_1')]
    imm = [str(i) for i in range(0, 34)] + ['-1', '0x1f', '0x20', '0b101', '63', '64', '127', '128', '254', '255', '256', '257', '-128', '1020', '1024', '65535', "'a'", 'DEF', 'nolabel', 'K_5', '0xff', '0x100', '0y11', '-4']
    for o in ['LSL', 'LSR', 'ASR', 'ADD', 'SUB']:
        L += ['%s %s,%s,#%s' % (o, r.choice(lo), r.choice(lo), v) for v in imm for _ in range(2)]
        L += ['%s %s,%s,#%d' % (o, a, b, r.choice([1, 5, 7])) for a in lo for b in lo]
    for o in ['MOV', 'CMP', 'ADD', 'SUB']:
        L += ['%s %s,#%s' % (o, r.choice(lo), v) for v in imm] + ['%s %s,#0x5a' % (o, x) for x in lo + hi + bad] + [o, o + ' r1', o + ' r1,#1,#1']
    steps = sorted({str(x) for s in (1, 2, 4) for n in (5, 7, 8) for x in (0, s, 2 * s, 3 * s, s * (2 ** n - 1), s * 2 ** n, s * (2 ** n - 1) - 1, s * (2 ** n - 1) + 1)} | {'-4', '-1', '0x10', '0x1fc', '0b100', '5', '6', 'DEF', 'nolabel', 'K_8', '40', '512', '508'})
    for base in ['pc', 'sp', 'r15', 'r13', 'PC', 'Sp', 'lr', 'r12', 'r8']:
        L += ['ADD %s,%s,#%s' % (r.choice(lo), base, v) for v in steps] + ['ADD %s,%s,#40' % (x, base) for x in regs + bad]
    for base in ['sp', 'r13', 'SP', 'pc', 'lr']:
        L += ['%s %s,#%s' % (o, base, v) for v in steps for o in (('ADD', 'SUB') if base == 'sp' else ('ADD',))]
    optional |= {l for l in L if l.startswith('SUB sp')}
    memory = ['LDR', 'STR', 'LDRB', 'STRB', 'LDRH', 'STRH', 'LDSB', 'LDSH']
    M = cross(['{o} {a},[{b},{d}]'], o=[m for m in memory if m != 'STRB'], a=lo, b=lo, d=lo)
    M += cross(['{o} {a},[{b},{d}]'], o=memory, a=['r3', 'r9', 'sp', 'r16', '5'], b=['r4', 'lr', 'r10', 'x'], d=['r5', 'pc', 'r8', 'r9x', '5'])
    for o in ['LDR', 'STR', 'LDRH', 'LDRB', 'STRB', 'STRH', 'LDSB', 'LDSH']:
        L_ = ['%s %s,[%s,#%s]' % (o, r.choice(lo), r.choice(lo), v) for v in steps] + ['%s %s,[%s,#0]' % (o, a, b) for a in lo for b in lo] + ['%s %s,[sp,#%s]' % (o, r.choice(lo), v) for v in steps]
        if o == 'LDRB':
            L_ = [l for l in L_ if l.endswith('#0]') or '[sp' in l or '-' in l or 'nolabel' in l or 'K_' in l]
        if o in ('STRB', 'STRH'):
            optional |= set(L_)
        M += L_
        M += ['%s %s,[%s,#4]' % (o, a, b) for a in ('r1', 'r8', 'sp', 'r16', '5') for b in ('r9', 'lr', 'r16', 'fp', 'x')]
        M += [o + x for x in ('', ' r1', ' r1,[r2]', ' r1,r2', ' r1,[r2,#4', ' r1,[r2,#4],r3', ' r1,{r2,#4}', ' r1,[#4,r2]', ' r1,(r2,#4)', ' r1,[r2,r3,r4]', ' r1,[r2,4]')]
    optional |= {l for l in M if l.startswith('STRB') or (l.startswith('STR r') and '[sp,' in l)}
    L += M
    for b in ['pc', 'r15', 'PC']:
        L += ['LDR %s,[%s,#%s]' % (r.choice(lo), b, v) for v in steps + ['K_200', 'K_204', 'K_1F0', 'K_202', 'F_202', 'F_204', 'F_206', 'F_208', 'F_20A', 'F_20C', 'F_230', 'F_5FC', 'F_600', 'F_604', 'F_5FE', 'F_602', 'F_608', 'F_1000', 'F_208+4', 'F_204-4', 'nolabel', 'DEF', '<F_1204']]
    L += ['LDR %s,[pc,#F_300]' % x for x in regs + bad] + ['STR r1,[pc,#4]', 'LDRB r1,[pc,#4]']
    lists = ['{%s}' % x for x in lo] + ['{%s-%s}' % (a, b) for a in lo for b in lo] + ['{r0,r1-r3,r7}', '{r7,r0}', '{r0,r0}', '{r1-r2,r4-r6}', '{r8}', '{r0-r8}', '{sp}', '{pc}', '{}', '{r0', 'r0}', 'r0', '', '{r16}', '{r0-}', '{-r3}', '{r0,r9}', '{#1}', '{r0-r1-r2}', '{lr,r0}', '[r0]', '{r0},r1',
                                                                                       '{r0,r1,r2,r3,r4,r5,r6,r7}', '{r3-r7,r0}', '{5}']
    L += ['PUSH ' + x for x in lists] + ['POP ' + x for x in lists[:3]]
    L += ['SWI ' + v for v in [str(i) for i in range(0, 256, 5)] + ['255', '256', '257', '1000', '-1', 'K_5', 'r1', '#5', '0x10', '0b11', '1,2', 'nolabel', '0xff', '0x100', "'a'"]] + ['SWI']
    optional |= {'SWI ' + v for v in ('-1', '0x10', '0b11', '0xff', "'a'")}
    L += ['BX ' + x for x in regs + bad] + ['BX', 'BX r1,r2']
    cond = 'BEQ BNE BCS BCC BMI BPL BVS BVC BHI BLS BGE BLT BGT BLE'.split()
    d = ['0', '4', '-4', '2', '254', '256', '-256', '-258', '255', '-255', '1', '-1', '3', '0x10', '0xfe', '0x1fe', 'K_200', 'K_204', 'K_104', 'K_102', 'K_106', 'K_1FE', 'K_1FF', 'K_203', 'F_202', 'F_204', 'F_206', 'F_302', 'F_304', 'F_306', 'F_205', 'F_303',
         'F_1204', 'nolabel', 'F_204+2', 'F_204+1', 'DEF', '<F_1204', '#4', 'r0', 'F_210-4', 'K_1']
    for o in cond:
        L += ['%s %s' % (o, v) for v in d] + [o, o + ' F_210,F_220']
    d11 = d + ['2046', '2048', '-2048', '-2050', '0x7fe', '0x800', 'F_A02', 'F_A04', 'F_A06', 'F_A03', 'K_0', 'F_1000', 'F_8000']
    d22 = d11 + ['4194302', '4194304', '-4194304', '-4194306', '0x3ffffe', '0x400000', '0x12344', '-0x10', 'F_400202', 'F_400204', 'F_400206', 'F_400203', 'F_12344', 'F_1234', 'F_800000', 'F_80000000']
    L += ['B ' + v for v in d11] + ['BL ' + v for v in d22] + ['B', 'BL', 'B F_204,F_206', 'BL F_204,F_206', 'BLX r1', 'BAL F_204', 'NOP']
    # patterns with the top bit set are accepted in the place of a negative displacement, or refused
    optional |= {'%s %s' % (o, v) for o in cond + ['B', 'BL'] for v in ('0x1fe', '0xfe', '0x800', '0xffe', '0x400000', '0x7ffffe')}
    L = [l for l in L if l not in optional or r.random() < .5]
    cased = casing(L, r, .1)
    pre = ['.define DEF 12']
    cased = [l for l in cased if l.lower() not in ('push {lr}', 'push {r0,lr}')]
    isa(c, 'instructions', k, spread(cased, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=pre, optional=optional, steady=r'(?i)(LDRB|PUSH|SWI)\b')
    isa(c, 'recorded', k, ['LDRB r0,[r1,#8]', 'LDRB r3,[r4,#0]', 'PUSH {lr}', 'PUSH {r0,lr}', 'LDRB r7,[r6,r5]'], pre=pre)
    odd = [l for l in L if l.startswith(('LDR r', 'B ', 'BL ', 'BEQ ', 'BLE ')) and ('_' in l)]
    isa(c, 'halfword addresses', k, odd, org=0x202, pre=pre, optional=optional)
    back = ['BL K_%X' % (0x500000 + 4 + x) for x in (-4194304, -4194306, -4194302, -4, -2, 0, -0x12344)] + ['BL F_%X' % (0x500004 + x) for x in (4194302, 4194304, 0x12344, 4096, 4098)] + ['B K_%X' % (0x500004 + x) for x in (-2048, -2050, -2046)]
    isa(c, 'far calls', k, back, org=0x500000, pre=pre)
    c.gen('programs', ['LDR r0,[pc,#z]', 'BL l', 'z: .dd 1', '.org 0x80', '.org 0x1000', 'l: PUSH {r0-r2}', 'd: BNE l', 'B d', 'BX lr'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C28
def C28(c):
    r = c.rnd
    k = cpu_config('68000')
    dn = ['d%d' % i for i in range(8)]
    an = ['a%d' % i for i in range(8)]
    v16 = ['0', '1', '-1', '32767', '32768', '65535', '65536', '-32768', '-32769', '$1234', '%1011', 'K_0', 'K_1234', 'K_7FFF', 'K_8000', 'K_FFFF', 'K_10000', 'F_12', 'F_1234', 'F_9ABC', 'F_10000', 'K_1230+4', '<K_1234', 'nolabel', 'DEF', 'DEF+4', "'a'"]
    v8 = ['0', '1', '-1', '127', '128', '255', '256', '-128', '-129', '$5a', 'K_0', 'K_7F', 'K_80', 'K_FF', 'K_100', 'F_12', 'F_7F', 'F_FF', 'F_100', '<K_1234', '>F_1234', 'nolabel', 'DEF', 'K_10+4']
    v32 = ['0', '5', '-1', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '-2147483648', '-2147483649', '$12345678', 'K_0', 'K_12345678', 'K_FFFFFFFF', 'K_100000000', 'F_1234', 'F_87654321', 'F_FFFF8000', 'F_100000000', 'K_12345670+8', 'nolabel', 'DEF', '$ffffffff']
    p16 = ['0', '6', '-2', '32767', '32768', '-32768', '-32769', 'K_200', 'K_0', 'K_1FE', 'F_202', 'F_204', 'F_206', 'F_208', 'F_81FF', 'F_8200', 'F_8201', 'F_8202', 'F_8203', 'F_8204', 'F_8205', 'F_8206', 'F_1FFFF', 'nolabel', 'F_210+4', 'DEF']
    p8 = ['0', '6', '-2', '127', '128', '-128', '-129', 'K_200', 'K_180', 'K_182', 'K_184', 'K_181', 'K_186', 'F_202', 'F_204', 'F_27F', 'F_280', 'F_281', 'F_282', 'F_283', 'F_284', 'F_285', 'F_286', 'F_301', 'nolabel', 'F_210+4', 'DEF']
    index = dn + an + [x + s for x in dn + an for s in ('.w', '.l', '.W', '.L')]
    one = lambda l: r.choice(l)
    # plain spellings, one of every mode
    plain = ['d3', 'a4', '(a2)', '(a5)+', '-(a6)', '(18,a1)', '(K_12,a1)', '(F_1234,a2)', '(F_34,a6,d5.l)', '(5,a3,d2)', '(5,a3,a2.l)', '(K_5,a3,d7.w)', '(F_210,pc)', '(6,pc)', '(F_210,pc,d1.l)', '($1234).w', '(F_1234).w', '($12345678).l', '(K_12345678).l', '#5', '#K_5', '#F_7F', '$1234.w', 'K_1234.w', 'F_12345678.l', '$4000', 'F_8000', '70000']
    broken = ['d8', 'a8', '(d1)', '(a9)', '(a1', 'a1)', '-(d1)', '(a1)-', '-a1', '()', '(4,d1)', '(4,a1,x)', '(4,a1,d1.b)', '(4,pc,pc)', '(4,a1,d1,d2)', '(4)', '(4).b', '4(a0)', '-4(a0)', '#', '# 5', '4(pc)', '4(a0,d1.w)', '[a0]', '(a1,4)', '(,a1)', '(#4,a1)', '(a0).w', 'd0.w', '#d0', '+(a0)', '(a0)+ +', '(pc)']
    spell = lambda f: [f.replace('{r}', x) for x in an]
    ea = dn + an + sum([spell(f) for f in ('({r})', '({r})+', '-({r})', '(10,{r})', '(-1,{r},d0)')], []) + \
        ['(%s,%s)' % (v, one(an)) for v in v16] + ['(%s,%s,%s)' % (v, one(an), one(index)) for v in v8] + ['(%s,%s,%s)' % (one(['3', 'K_7']), one(an), x) for x in index] + \
        ['(%s,pc)' % v for v in p16] + ['(%s,PC,%s)' % (v, one(index)) for v in p8] + ['(7,pc,%s)' % x for x in index] + ['(%s).w' % v for v in v16] + ['(%s).l' % v for v in v32] + \
        ['%s.w' % v for v in v16 if "'" not in v] + ['%s.L' % v for v in v32] + v32
    size = ['', '.b', '.w', '.l']
    def immediate(s):
        return ['#' + v for v in {'.b': v8, '.l': v32}.get(s, v16)]
    L = cross(['move{s} {a},{b}'], s=size, a=plain, b=plain) + cross(['movea{s} {a},{b}'], s=size, a=plain, b=['a0', 'a5', 'd1', '(a1)', '$4000'])
    for s in size:
        L += ['move%s %s,%s' % (s, e, one(plain)) for e in ea + immediate(s)] + ['move%s %s,%s' % (s, one(plain), e) for e in ea]
        L += ['move%s %s,%s' % (s, e, one(plain)) for e in broken] + ['move%s %s,%s' % (s, one(plain), e) for e in broken] + ['move%s d1,d2,d3' % s, 'move%s d1' % s, 'move' + s, 'move%s d1 d2' % s]
        L += ['movea%s %s,%s' % (s, e, one(an)) for e in ea[::3] + immediate(s) + broken]
        for o in ['ori', 'andi', 'subi', 'addi', 'eori', 'cmpi']:
            L += ['%s%s %s,%s' % (o, s, i, one(plain)) for i in immediate(s)] + ['%s%s #%s,%s' % (o, s, one(['5', 'K_12', 'F_33']), e) for e in plain + r.sample(ea, 40) + broken]
            L += [o + s, '%s%s #5' % (o, s), '%s%s d0,d1' % (o, s), '%s%s #5,d1,d2' % (o, s), '%s%s 5,d1' % (o, s), '%s%s (a0),d1' % (o, s)]
    for o in ['ori', 'andi', 'eori']:
        L += ['%s%s #%s,ccr' % (o, s, v) for s in ('', '.b') for v in v8] + ['%s%s #%s,SR' % (o, s, v) for s in ('', '.w') for v in v16] + [o + ' ccr,#5', o + ' #5,ccr,d0', o + ' d0,ccr']
    for o in ['jmp', 'jsr']:
        L += ['%s %s' % (o, e) for e in plain + ea + broken] + [o, o + ' (a0),(a1)', o + ' (a0),5', o + ' $1234,$5678']
    for o in ['lea', 'lea.l']:
        L += ['%s %s,%s' % (o, e, one(an)) for e in plain + ea + broken] + cross(['%s (4,a1),{a}' % o], a=an + dn + ['5', '(a1)']) + [o, o + ' a0', o + ' (a0)', o + ' (a0),a1,a2']
    cc = ['hi', 'ls', 'cc', 'cs', 'ne', 'eq', 'vc', 'vs', 'pl', 'mi', 'ge', 'lt', 'gt', 'le']
    b16 = p16 + ['1', '-1', 'F_203', 'K_1FF', 'F_8002+200', '$10', '#4', 'd0', '(a0)', '32766', '32764']
    b8 = p8 + ['1', '-1', '2', '126', 'F_203', 'K_1FF', '#4', 'a1', '(4)', 'F_200+2', '125']
    for o in cc + ['ra', 'sr', 't', 'f']:
        L += ['b%s%s %s' % (o, s, v) for s in ('', '.w') for v in b16] + ['b%s.b %s' % (o, v) for v in b8] + ['b' + o, 'b%s.b' % o, 'b%s.l F_210' % o, 'b%s F_210,F_220' % o]
    for o in cc + ['ra', 't', 'f']:
        L += ['db%s%s %s,%s' % (o, s, one(dn), v) for s in ('', '.w') for v in b16] + ['db%s %s,F_210' % (o, x) for x in dn + ['a0', '5', 'd8', '(a0)']] + ['db%s F_210' % o, 'db' + o, 'db%s.b d0,F_210' % o, 'db%s d0,F_210,5' % o]
    L += [o + x for o in ('rts', 'nop', 'rte', 'clr', 'add', 'swap') for x in ('', ' d0', ' 5', ' d0,d1')]
    cased = casing(L, r, .1)
    isa(c, 'instructions', k, spread(cased, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=['.define DEF 12'])
    c.gen('programs', ['move.w #z,(l).w', 'lea (d,pc),a0', 'z: .db 1,2', '.org $80', '.org $1000', 'l: move.l (z,a1),l', 'd: bne.b l', 'dbra d1,d', 'jmp z'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C29
def C29(c):
    r = c.rnd
    k = cpu_config('8086')
    r8 = ['AL', 'CL', 'DL', 'BL', 'AH', 'CH', 'DH', 'BH']
    r16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI']
    seg = ['ES', 'CS', 'SS', 'DS']
    bases = ['BX + SI', 'BX + DI', 'BP + SI', 'BP + DI', 'SI', 'DI', 'BP', 'BX']
    v16 = ['0', '1', '-1', '32767', '32768', '65535', '65536', '-32768', '-32769', '0x1234', '1234h', '$0ABCD', '0d99', '77d', '0b1011', '1011y', '0o17', '17q', '0q17', '0y101', '0h1F', 'K_0', 'K_1234', 'K_8000', 'K_FFFF', 'K_10000', 'F_12', 'F_1234', 'F_9ABC', 'F_10000', 'K_1230+4', '<K_1234', 'nolabel', 'DEF', "'z'"]
    v8 = ['0', '1', '-1', '127', '128', '255', '256', '-128', '-129', '0x5a', '5Ah', '12d', '0b1011', 'K_0', 'K_7F', 'K_80', 'K_FF', 'K_100', 'F_12', 'F_7F', 'F_FF', 'F_100', '<K_1234', '>F_1234', 'nolabel', 'DEF', 'K_10+4']
    disp = ['2', '0', '32767', '32768', '32769', '0x1000', '12h', 'K_5', 'K_1234', 'F_1234', 'F_12', 'F_8000', 'F_10000', 'nolabel', 'DEF', 'AL', 'BX', 'SI', '5 + 6', 'K_5+1']
    mem = ['[ %s ]' % b for b in bases] + ['[ %s %s %s ]' % (b, s, d) for b in bases for s in '+-' for d in ('2', 'K_5', 'F_1234')]
    memall = ['[ %s %s %s ]' % (b, s, d) for b in bases for s in '+-' for d in disp] + ['[%s]' % b for b in bases] + ['[%s + 2]' % b for b in bases]
    broken = ['[ AX ]', '[ SI + BX ]', '[ BX + BP ]', '[ BX', 'BX ]', '[ ]', '[ BX + ]', '[ SP ]', '[ SP + 2 ]', '[ BX * 2 ]', '( BX )', '[ BX ] [ SI ]', '[ CL ]', '[ BX + SI + DI ]', '[ BX + 2 + 3 ]', '[ 2 + BX ]', '[ AL + 5 ]', '[ [ BX ] ]', 'EAX', 'ST', 'FS']
    direct = ['[ %s ]' % v for v in v16]
    one = lambda l: r.choice(l)
    anyop = r8 + r16 + seg + mem[::5] + ['[ 0x1234 ]', '[ K_12 ]', '[ F_1234 ]', '5', '300', 'K_12', 'F_1234', '1', '3', 'K_1:F_2']
    alu = ['ADD', 'OR', 'ADC', 'SBB', 'AND', 'SUB', 'XOR', 'CMP']
    two = alu + ['MOV', 'TEST', 'XCHG', 'LEA', 'LES', 'LDS', 'IN', 'OUT', 'SHL', 'SHR']
    jcc = 'JO JNO JB JNB JZ JNZ JBE JA JS JNS JPE JPO JL JGE JLE JG LOOPNZ LOOPZ LOOP JCXZ'.split()
    alone = 'DAA DAS AAA AAS NOP CBW CWD WAIT PUSHF POPF SAHF LAHF MOVSB MOVSW CMPSB CMPSW STOSB STOSW LODSB LODSW SCASB SCASW INTO IRET XLAT LOCK REPNZ REPZ HLT CMC CLC STC CLI STI CLD STD'.split()
    L = cross(['{o} {a},{b}'], o=['MOV', 'ADD', 'XCHG', 'TEST', 'LEA', 'SHL', 'IN', 'OUT'], a=anyop, b=anyop)
    for o in two:
        L += ['%s %s,%s' % (o, a, one(anyop)) for a in anyop + memall + direct + broken] + ['%s %s,%s' % (o, one(anyop), b) for b in anyop + memall + direct + broken]
        L += ['%s %s,%s' % (o, a, b) for a in mem for b in (one(r8), one(r16))] + ['%s %s,%s' % (o, b, a) for a in mem for b in (one(r8), one(r16))]
        L += [o, o + ' AL', o + ' BX', o + ' [ BX ]', o + ' AX,BX,CX', o + ' AL,5,6', o + ' BX,[ SI ],5', o + ' BX [ SI ]', o + ' BL,1,1', o + ' CX,CL', o + ' CX,2', o + ' CX,1', o + ' DL,1']
    for a in r8 + ['[ BX ]', '[ DI - 3 ]', '[ SI + F_1234 ]']:
        L += ['MOV %s,%s' % (a, v) for v in v8]
    for a in r16 + seg:
        L += ['MOV %s,%s' % (a, v) for v in v16]
    for o in alu + ['TEST']:
        L += ['%s AL,%s' % (o, v) for v in v8] + ['%s AX,%s' % (o, v) for v in v16] + ['%s BL,5' % o, '%s DX,5' % o]
    L += cross(['MOV AL,{m}', 'MOV AX,{m}', 'MOV {m},AL', 'MOV {m},AX', 'MOV {m},BL', 'MOV CX,{m}', 'MOV {m},5', 'LES SI,{m}', 'LDS BP,{m}'], m=direct) + cross(['LES {x},[ F_1234 ]', 'LDS {x},[ 0x1234 ]', 'LEA {x},[ BX + 5 ]'], x=r8 + r16 + seg)
    L += cross(['LEA DX,{m}', 'MOV {m},CX', 'ADD DL,{m}', 'MOV {m},DS', 'MOV ES,{m}', 'POP {m}', 'MUL {m}', 'DIV {m}', 'SHL {m},1', 'SHR {m}', 'PUSH {m}', 'MOV {m},7', 'MOV {m},F_12', 'XCHG AH,{m}', 'TEST SI,{m}'], m=mem + memall + broken)
    for o in ['INC', 'DEC', 'PUSH', 'POP', 'MUL', 'DIV', 'INT', 'RET', 'RETF', 'CALL', 'JMP', 'JZ', 'LOOP', 'SHL', 'SHR', 'AAD', 'NOT', 'NEG', 'RCL']:
        L += ['%s %s' % (o, a) for a in anyop + broken] + [o, o + ' AX,BX', o + ' AX BX']
    L += cross(['{o} {x}'], o=['INC', 'DEC', 'PUSH', 'POP', 'MUL', 'DIV', 'SHL', 'SHR'], x=r8 + r16 + seg)
    L += cross(['{o} {x},1'], o=['SHL', 'SHR'], x=r8 + r16 + seg)
    L += ['INT ' + v for v in v8 + ['3', '0x3', '21h', '0x21']] + ['%s %s' % (o, v) for o in ('RET', 'RETF') for v in v16] + ['%s %s' % (o, v) for o in ('AAM', 'AAD') for v in ('1', '2', '0x7f', '255', '256', '-1', '11', 'K_5', 'DEF')]
    L += cross(['IN AL,{v}', 'IN AX,{v}', 'OUT {v},AL', 'OUT {v},AX'], v=v8 + ['DX', 'CX', 'AL', 'DL']) + ['OUT AL,5', 'IN 5,AL', 'IN BL,5', 'OUT 5,BL', 'IN DX,AL']
    d8 = ['0', '5', '127', '128', '-1', '-128', '-129', '0x7f', '0x80', '0xfe', '0x100', 'K_200', 'K_202', 'K_201', 'K_182', 'K_181', 'K_183', 'F_202', 'F_203', 'F_280', 'F_281', 'F_282', 'F_301', 'K_0', 'F_FFFF', 'nolabel', 'F_202+1', '<F_1202', 'DEF', '7Fh']
    for o in jcc:
        L += ['%s %s' % (o, v) for v in d8] + [o, o + ' 5,6', o + ' AL', o + ' [ BX ]', o + ' 1:2']
    d16 = d8 + ['32767', '32768', '-32768', '-32769', '0x7fff', 'F_8202', 'F_8203', 'F_8204', 'F_1FFFF', 'K_1', 'F_204']
    far = ['%s:%s' % (s, o) for s in ('1', '0x1234', 'K_12', 'F_8000', '65535', '65536', 'F_10000', 'nolabel', '-1', 'DEF') for o in ('0', '0x5678', 'F_34', 'K_FFFF', '65536', 'DEF')] + ['1:2:3', ':5', '5:', ':', 'AL:5']
    for o in ['CALL', 'JMP']:
        L += ['%s %s' % (o, v) for v in d16 + far] + [o, o + ' AX', o + ' [ BX ]', o + ' 5,6', o + ' 1:2,3', o + ' FAR 5', o + ' SHORT F_210']
    L += [o + x for o in alone for x in ('', ' AL', ' 5', ' [ BX ]')]
    L += ['PUSHA', 'JE F_210', 'JNE F_210', 'SAL AX,1', 'MOVZX AX,BL', 'IMUL BX', 'IDIV BX', 'LOOPE F_210', 'REP', 'REPE']
    # without a size, a memory operand may be refused
    sized = re.compile(r'(?i)^(MOV \[[^\]]*\],(?!AL$|AX$|.?[SLXHI]$)|SH[LR] \[)')
    cased = casing(L, r, .1)
    optional = {l for l in cased if sized.match(l)}
    # what the architecture has and the assembler may lack: commuted operands, hexadecimal displacements after a minus
    optional |= {l for l in cased if re.match(r'(?i)(XCHG|TEST) \[', l) or re.search(r'- *(0x|\w+h\b|F_|K_|DEF)', l)}
    known = {'AAM', 'AAD', 'AAM 0X0A', 'AAD 0X0A'}
    cased = [l for l in cased if l.upper() not in known]
    pre = ['.define DEF 12']
    isa(c, 'instructions', k, spread(cased, c.n(40000, 80000), r), rejects=c.n(20000, 60000), pre=pre, optional=optional, steady='(?i)(AAM|AAD)')
    isa(c, 'recorded', k, ['AAM', 'AAD', 'AAM 0x0A', 'AAD 0x0A', 'AAM 7', 'AAA'], pre=pre)
    c.gen('programs', ['MOV AL,[ z ]', 'LEA AX,[ BX + l ]', 'z: .db 1', '.org 0x80', '.org 0x1000', 'l: MOV [ SI - 2 ],z', 'd: JZ l', 'CALL d', 'JMP l'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C30
def C30(c):
    r = c.rnd
    k = cpu_config('ppc')
    G, FL = ['r%d' % i for i in range(32)], ['f%d' % i for i in range(32)]
    badg = ['r32', 'f3', '5', 'r', 'cr0', 'sp', 'K_5', 'r-1', 'r03', '(r3)']
    badf = ['f32', 'r3', '5', 'f', 'K_5', 'f01']
    g = lambda: r.choice(G)
    f = lambda: r.choice(FL)
    L, optional = [], set()
    oe = lambda names: [n + o + d for n in names for o in ('', 'o') for d in ('', '.')]
    rc = lambda names: [n + d for n in names for d in ('', '.')]
    ar3 = oe('add addc adde divw divwu mullw subf subfc subfe doz mul div divs sub subc'.split()) + rc(['mulhw', 'mulhwu'])
    un = oe('addme addze neg subfme subfze abs nabs'.split()) + ['clcs']
    lo3 = rc('and andc eqv nand nor or orc slw srw sraw xor rrib maskg maskir slq srq sllq srlq sle sre sleq sreq sraq srea'.split())
    lo2 = rc('cntlzw extsb extsh'.split())
    shi = rc('srawi sliq sriq slliq srliq sraiq'.split())
    idx = 'lbzx lhzx lhax lwzx lhbrx lwbrx lswx lwarx lscbx lscbx. stbx sthx stwx sthbrx stwbrx stswx stwcx. eciwx ecowx'.split()
    upd = 'lbzux lhzux lhaux lwzux stbux sthux stwux'.split()
    fidx, fupd = 'lfsx lfdx stfiwx stfsx stfdx'.split(), 'lfsux lfdux stfsux stfdux'.split()
    cache = 'icbi dcbt dcbtst dcbz dcbst dcbf dcba dcbi dcbzl'.split()

    def regs(o, kinds):
        """each operand through all registers of its kind (g, 0, u, f), and through wrong ones"""
        pool = {'g': (G, badg), '0': (['0'] + G, [b for b in badg if b != '5'] + ['5', '-1']), 'u': (G, badg), 'f': (FL, badf)}
        pick = lambda q: g() if q in 'g0' else r.choice(G[1:]) if q == 'u' else f()
        out = []
        for i, q in enumerate(kinds):
            good, bad = pool[q]
            for x in good + bad:
                out.append('%s %s' % (o, ','.join(x if j == i else pick(p) for j, p in enumerate(kinds))))
        ops = [pick(p) for p in kinds]
        out += ['%s %s' % (o, ','.join(ops[:-1])) if len(ops) > 1 else o, o, '%s %s,%s' % (o, ','.join(ops), r.choice(['r5', '7', 'f2']))]
        return out

    for names, kinds in ((ar3, 'ggg'), (un, 'gg'), (lo3, 'ggg'), (lo2, 'gg'), (idx, 'g0g'), (upd, 'gug'), (fidx, 'f0g'), (fupd, 'fug'), (cache, '0g'), (['tlbld', 'tlbli', 'mfcr', 'mfmsr', 'mtmsr'], 'g'), (['mtsrin', 'mfsrin'], 'gg'),
                         ('mfxer mflr mfctr mtxer mtlr mtctr mfmq mfrtcl mfrtcu mtmq mtrtcl mtrtcu mttbl mttbu mftb mftbu'.split(), 'g'),
                         (rc('fadd fadds fsub fsubs fdiv fdivs fmul fmuls'.split()), 'fff'), (rc('fmadd fmadds fmsub fmsubs fnmadd fnmadds fnmsub fnmsubs fsel'.split()), 'ffff'),
                         (rc('fmr fabs fneg fnabs fres frsp frsqrte fsqrt fsqrts fctiw fctiwz'.split()), 'ff'), (rc(['mffs']), 'f'),
                         (['tw' + t for t in 'lt le eq ge gt nl ne ng llt lle lge lgt lnl lng'.split()], 'gg')):
        for o in names:
            L += regs(o, kinds)
    optional |= {l for l in L if l.split(' ')[0] in ('tlbld', 'tlbli')}
    v16 = ['0', '1', '-1', '32767', '32768', '65535', '65536', '-32768', '-32769', '0x5a5a', '0x7fff', '0x8000', '0xffff', '0x10000', "'a'", 'K_0', 'K_1234', 'K_7FFF', 'K_FFFF', 'K_10000', 'F_8', 'F_8000', 'F_10000', '<<K_12345678', '>>F_8765FFFF', 'K_1230+4', 'nolabel', 'DEF', 'DEF+4']
    wide = {'32768', '65535', '0x8000', '0xffff', '-1', '-32768'}
    for o, kinds, v in [('addi', 'g0', 0), ('addis', 'g0', 0), ('li', 'g', 0), ('lis', 'g', 0)] + [(o, 'gg', 0) for o in 'addic addic. subfic dozi mulli andi. andis. ori oris xori xoris'.split()] + \
            [(o, 'g', 0) for o in 'cmpi cmpli cmpwi cmpdi cmplwi cmpldi'.split()] + [('tw%si' % t, 'g', 0) for t in 'lt le eq ge gt nl ne ng llt lle lge lgt lnl lng'.split()]:
        ls = ['%s,%s' % (l, r.choice(['7', 'K_1234', 'F_8', '0x70'])) for l in regs(o, kinds) if ' ' in l]
        ls += ['%s %s,%s' % (o, ','.join(g() for _ in kinds), x) for x in v16] + [o + ' ' + ','.join(g() for _ in kinds), o + ' 5', '%s %s,5,6' % (o, ','.join(g() for _ in kinds)), '%s %s,f5' % (o, ','.join(g() for _ in kinds)), '%s %s,r5' % (o, ','.join(g() for _ in kinds))]
        optional |= {l for l in ls if l.split(',')[-1] in wide}                   # the sign of an immediate may be insisted on
        L += ls
    small = lambda bits: [str(v) for v in edges(bits) if abs(v) < 70] + ['0x1', 'K_0', 'K_1', 'K_3', 'K_%X' % ((1 << bits) - 1), 'K_%X' % (1 << bits), 'F_8', 'F_F', 'F_1F', 'F_20', '<K_1203', 'nolabel', 'DEF', "'0'"]
    sgn = lambda ls: {l for l in ls if re.search(r'[ ,]-\d', l)}                 # negative numbers in unsigned fields may be refused
    few = ['0', '1', '7', 'K_3', 'F_5']
    M = []
    for o in 'cmpi cmpli'.split():
        M += ['%s %s,%s,%s,%s' % (o, v, l, g(), x) for v in few for l in small(1) for x in ('5', 'F_7')] + ['%s %s,%s,%s' % (o, v, g(), x) for v in small(3) for x in ('5', 'K_70')]
    for o in 'cmpwi cmpdi cmplwi cmpldi'.split():
        M += ['%s %s,%s,%s' % (o, v, g(), x) for v in small(3) for x in ('5', 'K_70', '-1')] + ['%s %s,0,%s,5' % (o, v, g()) for v in few]
    for o in 'cmpw cmpd cmplw cmpld cmp cmpl'.split():
        M += ['%s %s,%s' % (o, x, g()) for x in G[::3] + badg] + ['%s %s,%s,%s' % (o, v, g(), g()) for v in small(3) + G[::5]] + ['%s 1,%s,%s' % (o, x, g()) for x in G + badg] + ['%s 1,%s,%s' % (o, g(), x) for x in G + badg] + ['%s %s,%s,%s,%s' % (o, v, l, g(), g()) for v in few for l in small(1)] + [o]
    for o in shi + ['lswi', 'stswi']:
        M += ['%s %s,%s,%s' % (o, g(), g(), v) for v in [str(i) for i in range(33)] + small(5)] + ['%s %s,%s,3' % (o, x, g()) for x in G + badg] + ['%s %s,%s,3' % (o, g(), x) for x in G + badg + ['0']] + ['%s %s,%s' % (o, g(), g()), '%s %s,%s,%s' % (o, g(), g(), g())]
    M += ['twi %s,%s,%s' % (v, g(), x) for v in small(5) for x in ('5', '-5', 'F_8')] + ['tw %s,%s,%s' % (v, g(), g()) for v in small(5)] + ['tw 4,%s,%s' % (x, g()) for x in G + badg] + ['tw 4,%s,%s' % (g(), x) for x in G + badg]
    M += ['dcbt %s,%s,%s' % (x, g(), v) for v in small(4) for x in ('0', g())] + ['dcbz %s,%s,1' % (g(), g())]
    M += ['%s %s,%s,%s' % (o, g(), g(), v) for o in ('dst', 'dstt', 'dstst', 'dststt') for v in small(2)] + ['%s %s' % (o, v) for o in ('dss', 'sync') for v in small(2)]
    M += ['attn %s' % v for v in ['0', '5', '32767', '32768', '-1', 'K_7FFF', 'F_7FFF', 'K_8000', 'F_8000', 'DEF']]
    for o in 'crand crandc creqv crnand crnor cror crorc crxor'.split():
        M += ['%s %s' % (o, ','.join(v if i == j else r.choice(few) for j in range(3))) for i in range(3) for v in small(5)] + ['%s 1,2' % o, '%s 1,2,3,4' % o, '%s 1,r2,3' % o]
    for o, b in (('mcrf', 3), ('mcrfs', 3), ('mtfsfi', 4), ('mtfsfi.', 4)):
        M += ['%s %s,%s' % (o, v, r.choice(few[:3])) for v in small(3)] + ['%s %s,%s' % (o, r.choice(few[:3]), v) for v in small(b) + ['31', '32']] + [o + ' 1', o + ' 1,2,3']
    M += ['mcrxr %s' % v for v in small(3)] + ['%s %s' % (o, v) for o in ('mtfsb0', 'mtfsb0.', 'mtfsb1', 'mtfsb1.') for v in small(5)]
    for o in ('mtfsf', 'mtfsf.'):
        M += ['%s %s,%s' % (o, v, f()) for v in ['0', '5', '127', '128', '255', '256', '-1', '-128', 'K_FF', 'K_100', 'F_FF', 'F_100', 'DEF']] + ['%s 8,%s' % (o, x) for x in FL + badf]
    for o in ('fcmpu', 'fcmpo'):
        M += ['%s %s,%s,%s' % (o, v, f(), f()) for v in small(3)] + ['%s 3,%s,%s' % (o, x, f()) for x in FL + badf] + ['%s 3,%s,%s' % (o, f(), x) for x in FL + badf] + ['%s %s,%s' % (o, f(), f())]
    for o in ('bclr', 'bclrl', 'bcctr', 'bcctrl'):
        M += ['%s %s,%s' % (o, v, r.choice(few)) for v in small(5)] + ['%s %s,%s' % (o, r.choice(few), v) for v in small(5)] + ['%s 12,2,%s' % (o, v) for v in small(2)] + [o, o + ' 12', o + ' 12,2,0,0', o + ' r1,2']
    conds = 'lt le eq ge gt nl ne ng so ns un nu'.split()
    alone = ['blr', 'blrl', 'bctr', 'bctrl', 'bdnzlr', 'bdnzlrl', 'bdzlr', 'bdzlrl']
    M += ['%s %s' % (o, v) for o in alone for v in small(2)]
    alone += ['b%s%s%s' % (x, e, lk) for x in conds for e in ('lr', 'ctr') for lk in ('', 'l')] + 'nop sc lwsync sync ptesync trap isync eieio rfi tlbia tlbsync dssall'.split()
    L += alone + [o + x for o in alone for x in (' r3', ' K_1234567', ' 1,2,3,4')]
    L += 'nope add5 fadd,5 cmpx bxx stwcx lwz li r3'.split() + ['addi.', 'andi r3,r4,5', 'ori. r3,r4,5', 'addo r3', 'mulhwo r1,r2,r3', 'lwzx. r1,r2,r3', 'cmpw. r1,r2', 'mflr. r3', 'neg.o r1,r2', 'fmro f1,f2', 'nop.', 'stwcx r3,r4,r5', 'sync. ', 'ando r1,r2,r3', 'srawio r1,r2,3']
    optional |= sgn(M)
    L += M
    d14 = ['0', '4', '8', '-4', '32764', '32767', '32768', '-32768', '-32772', '2', '5', '-1', '0x100', 'K_200', 'K_1FC', 'K_204', 'F_204', 'F_208', 'F_81FC', 'F_8200', 'F_8204', 'F_202', 'F_205', 'K_1', 'K_201', 'F_200C', 'nolabel', 'F_204+4', 'F_204+2', 'DEF', '<<F_10204', 'r3', 'f3']
    d24 = d14 + ['33554428', '33554432', '-33554432', '-33554436', 'F_20001FC', 'F_2000200', 'F_2000204', 'K_10000', 'F_FFFFFFC', 'F_1FFFFFC']
    a14 = ['0', '4', '-4', '32764', '32768', '-32768', '-32772', '2', '0x100', 'K_200', 'K_7FFC', 'F_7FFC', 'K_8000', 'F_8000', 'F_FFFC', 'F_10000', 'K_1', 'F_7FFE', 'F_301', 'nolabel', 'DEF', 'K_300+4', 'K_300+2', 'r3']
    a24 = a14 + ['33554428', '33554432', '-33554432', '-33554436', 'K_1FFFFFC', 'F_1FFFFFC', 'F_2000000', 'F_3FFFFFC', 'F_4000000']
    for o in ('b', 'bl', 'ba', 'bla'):
        L += ['%s %s' % (o, v) for v in (a24 if 'a' in o else d24)] + [o, o + ' 4,4', o + ' r3']
    for o in ('bc', 'bcl', 'bca', 'bcla'):
        L += ['%s 12,2,%s' % (o, v) for v in (a14 if 'a' in o else d14)] + ['%s %s,%s,F_300' % (o, v, r.choice(few)) for v in small(5)] + ['%s %s,%s,F_300' % (o, r.choice(few), v) for v in small(5)] + [o, o + ' 4', o + ' 12,2', o + ' r1,2,8', o + ' 12,2,F_300,1']
        optional |= sgn(l for l in L if l.startswith(o + ' ') and l.endswith('F_300'))
    for x in conds + ['dnz', 'dz']:
        for e in ('', 'l', 'a', 'la'):
            o = 'b' + x + e
            L += ['%s %s' % (o, v) for v in (a14 if 'a' in e else d14)] + [o, o + ' 4,4']
    optional |= {l for l in L if l[0] == 'b' and l.split(' ')[-1].startswith('-') and 'a ' in l}     # negative absolute addresses
    # conditions with a field of the condition register need operand types which do not exist
    optional |= {'%s K_1234567' % o for o in alone if o[0] == 'b'}
    L = casing(L, r)
    isa(c, 'instructions', k, spread(L, c.n(40000, 80000), r), org=0x200, rejects=c.n(20000, 60000), pre=['.define DEF 0x3'], optional=optional)
    near = [l for l in L if l[0] in 'bB' and ('F_' in l or 'K_' in l)]
    isa(c, 'other addresses', k, spread(near, 400, r), org=0, rejects=300, pre=['.define DEF 0x3'], optional=optional)
    isa(c, 'far addresses', k, spread(near, 300, r), org=r.choice([0x7fff1000, 0x80001000, 0xfff00000]), rejects=100, pre=['.define DEF 0x3'], optional=optional)
    if c.thorough:
        isa(c, 'cross', k, cross(['addo. {x},{y},{z}', 'fnmsubs {u},{v},{w},f7', 'and. {x},{y},{z}', 'cmpw 5,{x},{y}', 'crxor {i},{j},{m}'], x=G, y=G[::3], z=G[::5], u=FL, v=FL[::3], w=FL[::5], i=[str(i) for i in range(32)], j=['0', '9', '31'], m=['1', '16', '30']), rejects=200, bundle=60)
    c.gen('programs', ['b l', 'bdnz l', 'cmpwi r3,4', 'beq l', '.align 16', 'l: li r3,l', '.org 0x1000', 'bla l', '.dd 1'], k, c.n(4, 5))


# ------------------------------------------------------------------------------------------------ C31
# per processor: instructions ({} is the label), what the displacement counts from, its limits and step, a filler instruction
CONDS68 = 'HI LS CC CS NE EQ VC VS PL MI GE LT GT LE'.split()
BRANCHES = {
    '6502': [([b + ' {}' for b in 'BPL BMI BVC BVS BCC BCS BNE BEQ'.split()], 2, -128, 127, 1)],
    'z80': [(['JR {}', 'DJNZ {}'] + ['JR %s,{}' % x for x in 'NZ Z NC C'.split()], 2, -128, 127, 1)],
    'lr35902': [(['JR {}'] + ['JR %s,{}' % x for x in 'NZ Z NC C'.split()], 2, -128, 127, 1)],
    'mips32': [(['BEQ $t0,$s1,{}', 'BNE $a0,$zero,{}', 'BGTZ $t3,{}', 'BLEZ $v0,{}'], 4, -131072, 131068, 4)],
    'thumb': [(['B%s {}' % x for x in 'EQ NE CS CC MI PL VS VC HI LS GE LT GT LE'.split()], 4, -256, 254, 2), (['B {}'], 4, -2048, 2046, 2), (['BL {}'], 4, -4194304, 4194302, 2),
              (['LDR r%d,[PC,#{}]' % i for i in range(8)], 4, -2, 1020, 2)],
    '68000': [(['B%s.B {}' % x for x in CONDS68], 2, -128, 127, 2), (['B%s.W {}' % x for x in CONDS68] + ['B%s {}' % x for x in CONDS68], 2, -32768, 32767, 2),
              (['DB%s D%d,{}' % (x, i % 8) for i, x in enumerate(['T', 'F', 'RA'] + CONDS68)], 2, -32768, 32767, 2),
              (['LEA ({},PC),A2', 'MOVE.W ({},PC),D3', 'JMP ({},PC)', 'JSR ({},PC)', 'MOVE.L ({},PC),$8000.W', 'MOVE.B ({},PC),(4,A1)', 'MOVEA.W ({},PC),A0', 'MOVE ({},PC),(A2)+'], 2, -32768, 32767, 1),
              (['LEA ({},PC,D2.W),A1', 'MOVE.B ({},PC,A3.L),(A0)', 'JMP ({},PC,D0.L)', 'JSR ({},PC,D7.W)'], 2, -128, 127, 1)],
    '8086': [(['J%s {}' % x for x in 'O NO B NB Z NZ BE A S NS PE PO L GE LE G CXZ'.split()] + ['LOOP {}', 'LOOPZ {}', 'LOOPNZ {}'], 2, -128, 127, 1),
             (['JMP {}', 'CALL {}'], 3, -32768, 32767, 1)],
    'ppc': [(['b {}', 'bl {}'], 0, -33554432, 33554428, 4), (['bc 12,2,{}', 'bcl 4,2,{}', 'beq {}', 'bne {}', 'blt {}', 'bdnz {}', 'bdz {}', 'bgel {}', 'bsol {}', 'bdnzl {}'], 0, -32768, 32764, 4)],
}
FIXED = {   # branches within a region of addresses, and to absolute addresses
    'mips32': ['J {}', 'JAL {}', 'TRAP {}'],
    'ppc': ['ba {}', 'bla {}', 'bca 12,2,{}', 'beqa {}', 'bdnzla {}', 'bcla 4,1,{}'],
}
NOPS = {'6502': 'NOP', 'z80': 'NOP', 'lr35902': 'NOP', 'mips32': 'ADDU $t0,$t1,$t2', 'thumb': 'MVN r1,r2', '68000': 'NOP', '8086': 'NOP', 'ppc': 'nop'}


def C31(c):
    r = c.rnd
    h = lambda cpu, v: CPU_NT[cpu]['hexp'][0] + '%x' % v if v > 9 else str(v)

    def point(cpu, ins, at, d, how):
        """the instruction at address at, its label d bytes behind it, in one of several placements -> (source, files)"""
        t, files = at + d, {}
        org = lambda a: '.org ' + h(cpu, a)
        mv = r.choice(['.org', '.goto', '.ram'])
        body = [ins.format('t')]
        if how == 'macro':
            head, body = ['.macro go x', ins.format('x'), '.endmacro'], ['go t']
        elif how == 'nested':
            head, body = ['.macro in y', ins.format('y'), '.endmacro', '.macro go x', 'in x', '.endmacro'], ['go t']
        elif how == 'include':
            head = []
            files['part'] = dict(t='text', src='\n'.join(body) + '\n')
            body = ['.include "part"']
        elif how == 'define':
            head, body = ['.define where t'], [ins.format('where')]
        elif how == 'once':
            head, body = [], ['.repeat 1'] + body + ['.endrepeat']
        elif how == 'behind':
            head, body = ['.org 0x0 0xf' if cpu in ('ppc', 'mips32', '8086', 'thumb') else '.org 0 15', '.dd 1', '.org ' + h(cpu, 64), '.fill 6', '.ram 10', NOPS[cpu]], body
        else:
            head = []
        src = head
        if d <= 0:
            src = src + [org(t), 't:']
            if 0 < -d < 40000 and mv != '.org':
                src.append('.goto %s' % h(cpu, at) if mv == '.goto' else '.ram %d' % -d)
            else:
                src.append(org(at))
            src += body
        else:
            src = src + [org(at)] + body
            if d < 40000 and mv == '.goto' and d >= 10:
                src += ['.goto ' + h(cpu, t), 't:']
            else:
                src += [org(t), 't:']
        return '\n'.join(src + [NOPS[cpu]]) + '\n', files

    hows = ['plain', 'macro', 'nested', 'include', 'define', 'once', 'behind']

    def run(part, cpu, progs):
        """(source, files): accepted ones and rejected ones are all judged by the model"""
        c.trace(part, [dict(cfg=cpu_config(cpu, files=f), ops=[dict(op='build', src=s, file='')], loose=True, lines=[s]) for s, f in progs], timeout=600)

    for cpu, groups in BRANCHES.items():
        cases = []
        top = {'6502': 0x10000, 'z80': 0x10000, 'lr35902': 0x10000, '8086': 0x10000}.get(cpu, 0x100000000)
        for insts, base, lo, hi, step in groups:
            near = {base + x for e in (lo, hi) for x in range(e - 2 * step - 1, e + 2 * step + 2)} | set(range(-5, 9)) | {base + x for x in (r.randrange(lo, hi + 1) for _ in range(c.n(6, 40)))}
            near |= {base + r.randrange(lo, hi + 1) // step * step for _ in range(c.n(6, 40))} | {2 * lo, 2 * hi, base + lo - 256, base + hi + 257}
            for d in sorted(near):
                for ins in insts if c.thorough and len(insts) < 12 else r.sample(insts, min(len(insts), 3)):
                    for how in r.sample(hows, c.n(1, 3)):
                        ats = [a for a in (0, 0x40, 0x200, 0x203, 0x1000, 0x7ffe, 0x8000, 0xff80, -d, abs(lo) + 64, abs(lo) + 66, abs(lo) * 2 + 0x102, 0x12345678, 0x7f001004, 0x7ffffffc, 0x80000000, 0x80010000, 0xbfc00380, 0xfff00000) if 0 <= a + d and 0 <= a and max(a, a + d) < top - 16]
                        if how == 'behind':
                            ats = [a for a in ats if a >= 0x200 and a + d >= 0x200]
                        if ats:
                            cases.append(point(cpu, ins, r.choice(ats), d, how))
        for ins in FIXED.get(cpu, ()):
            for _ in range(c.n(60, 400)):
                a = r.choice([0, 0x200, 0x1000, 0x0ffffff8, 0x0ffffffc, 0x10000000, 0x10000004, 0x2ffffffc, 0x7fff0000, 0x80010000, 0xbfc00000, 0xeffffffc]) + r.choice([0, 0, 0, 4, 8, 2])
                t = r.choice([0, 4, 0x100, 0x7ffc, 0x8000, 0x0ffffffc, 0x10000000, 0x10000040, 0x1fffffc, 0x2000000, 0x1ffffffc, 0x20000000, 0x30000000, 0x7fff0000, 0x80010100, 0x8ffffffc, 0xbfc00200, 0xf0000000, a, a + 4, a - 4, a + 8]) + r.choice([0, 0, 0, 0, 1, 2])
                if t >= 0 and (cpu != 'mips32' or t % 4 == 0):                  # C26 decides jumps to odd addresses
                    cases.append(point(cpu, ins, a, t - a, r.choice(hows)))
        numbers = []
        for insts, base, lo, hi, step in groups:
            vs = {x + e for e in (lo, hi + step) for x in (-2 * step, -step, 0, step, 2 * step)} | {-3 * step, -2 * step, -step, 0, step, 2 * step, 5 * step} | {r.randrange(lo, hi + 1) // step * step for _ in range(c.n(4, 20))}
            if 'LDR r0,[PC,#{}]' in insts:
                vs = {v for v in vs if v >= 0}
            numbers += [ins.format(r.choice([str(v), str(v), h(cpu, v)]) if 0 <= v <= hi else str(v)) for v in sorted(vs) for ins in r.sample(insts, min(len(insts), c.n(4, 12)))]
        isa(c, 'numbers ' + cpu, cpu_config(cpu), numbers, org=0x200, respelled=False)
        r.shuffle(cases)
        run('distances ' + cpu, cpu, cases[:c.n(600, 6000)])
        # blocks which are repeated: every copy reaches the label
        cases, nop = [], NOPS[cpu]
        for insts, base, lo, hi, step in groups:
            for _ in range(c.n(40, 250)):
                n, pad = r.choice([2, 2, 3, 4]), r.choice([0, 0, 4, 8, 2, 1, 16])
                body = [ins.format(x) for ins, x in zip(r.choices(insts, k=2), r.choices('tu', k=2))][:r.choice([1, 1, 2])]
                body += ['.fill %d' % pad] if pad else [nop] * r.randrange(2)
                size = 2 * len(body) + pad
                at = r.choice([0x400, 0x400, 0x1000, 0x1200, 0x2002, 0x8000]) if max(-lo, hi) < 0x300 else max(-lo, hi) * 2 + 0x2000
                if at > top // 2 and top == 0x10000:
                    at = 0x9000
                k = r.choice([0, 2, 4, 8, 1, 5])
                edge = lambda: r.choice([at + base + lo + r.choice([0, step, 2 * step, size, -step]) + r.choice([0, 0, 0, size * (n - 1), k]), at + base + hi - r.choice([0, step, 2 * step, -step]) + r.choice([0, size, size * (n - 1), -k]),
                                         at, at + size, at - k, at + n * size + k, at + n * size + r.randrange(0, 8) * step])
                here = sorted([('t', max(0, edge())), ('u', max(0, edge()))], key=lambda x: x[1])
                src = []
                inner = ['.macro go', *body, '.endmacro'] if r.random() < .3 else []
                for name, a in here:
                    if a <= at:
                        src += ['.org ' + h(cpu, a), name + ':']
                files = {}
                blk = ['go'] if inner else body
                if r.random() < .2:
                    files['blk'] = dict(t='text', src='\n'.join(blk) + '\n')
                    blk = ['.include "blk"']
                src += inner + ['.org ' + h(cpu, at), '.repeat %d' % n, *blk, '.endrepeat']
                if r.random() < .3:                   # further statements, then a second block
                    src += [nop, body[0], '.repeat 2', body[-1], '.endrepeat']
                for name, a in here:
                    if a > at:
                        src += ['.org ' + h(cpu, a), name + ':']
                cases.append(('\n'.join(src) + '\n', files))
        run('repeated ' + cpu, cpu, cases)
        # several branches, labels and movements
        cases = []
        for _ in range(c.n(120, 900)):
            src, free = [], ['la', 'lb', 'lc']
            used = set()
            size = {'mips32': 4, 'ppc': 4, 'thumb': 2, '68000': 2}.get(cpu, 1)
            src.append('.org ' + h(cpu, r.choice([0, 0x100, 0x1000, 0x4000])))
            for _ in range(r.randrange(4, 12)):
                x = r.random()
                if x < .45:
                    g = r.choice(groups)
                    l = r.choice(['la', 'lb', 'lc'])
                    used.add(l)
                    src.append(r.choice(g[0]).format(l))
                elif x < .65 and free:
                    src.append(free.pop(r.randrange(len(free))) + ':')
                elif x < .8:
                    src.append('.fill %d' % (size * r.choice([0, 1, 2, 3, 8, 60])))
                elif x < .85:
                    src.append('.ram %d' % (size * r.randrange(1, 40)))
                elif x < .9:
                    src.append('.align %d' % (size * r.choice([1, 2, 4, 8])))
                else:
                    src.append(nop)
            src += [l + ':' for l in sorted(free) if l in used]
            cases.append(('\n'.join(src) + '\n', {}))
        run('histories ' + cpu, cpu, cases)
        # all small programs
        g = groups
        branches = [r.choice(x[0]) for x in (g[0], g[-1])]
        far = {'mips32': '.org 0x20000', 'ppc': '.org 0x8000', '68000': '.org $8000', 'thumb': '.org 0x100'}.get(cpu, '.org 120')
        pieces = [b.format('t') for b in branches] + ['t:', '.repeat 2', '.endrepeat', '.macro m x\n%s\n.endmacro' % branches[0].format('x'), 'm t', far, '.fill 3']
        c.gen('programs ' + cpu, pieces, cpu_config(cpu), c.n(4, 5), loose=True)


# ------------------------------------------------------------------------------------------------ C34
class Collector:
    """stands for a check and only keeps the lines an instruction set is checked with"""
    def __init__(self, c):
        self.rnd, self.thorough, self.known, self.collected = c.rnd, False, [], []

    def n(self, quick, thorough):
        return quick

    def gen(self, *a, **k):
        pass

    trace = note = gen


def C34(c):
    r = c.rnd
    hexp = dict(gb='$', nes='$', sms='$', psx='0x')
    every = sorted(set(n for ns in PLAT_NAMES.values() for n in ns))
    for plat, ins in (('gb', C25), ('nes', C23), ('sms', C24), ('psx', C26)):
        k = plat_config(plat)
        h = hexp[plat]
        cases = []
        def case(*src):
            cases.append(dict(cfg=k, ops=[dict(op='asm', src='\n'.join(src), file=''), dict(op='link')] if plat != 'gb' else
                              [dict(op='asm', src='\n'.join(src + ('.upto 336',)), file=''), dict(op='bytes'), dict(op='link')], loose=True))
        # a name stands for its address wherever a number can, as a whole word in its spelling only, until it is given another meaning
        for n in every:
            case('.dw %s' % n)
            case('.dd %s, %s+1, 2*%s, %s+%s' % (n, n, n, n, n), '.dw <%s, >%s' % (n, n), '.db <%s' % n)
            case('.dw %s' % n.lower())
            case('.dw %sX' % n)
            case('.dw X%s' % n)
            case('.db "%s", 1' % n)
            case('.org %s' % n, 'here: .dw here', '.db 1')
            case('.dw %s' % n, '.define %s 7' % n, '.dw %s' % n)
            case('.define OTHER %s' % n, '.dw OTHER, OTHER+2')
            case('%s:' % n, '.dw %s' % n)
            case('.macro m', '.dw %s' % n, '.endmacro', 'm', 'm')
            case('.macro m %s' % n, '.dw %s' % n, '.endmacro', 'm 9')
            case('.fill 2', '.repeat 2', '.dw %s' % n, '.endrepeat')
            case('lab: .dd lab+%s' % n)
        u = {'gb': ['LD A,({n})', 'LD ({n}),A', 'LD HL,{n}', 'LD BC,{n}+1', 'JP {n}', 'LD A,<{n}', 'LD A,>{n}', 'LD ({n}),SP', 'CALL {n}', 'LD A,{n}'],
             'nes': ['LDA {n}', 'STA {n}', 'LDX {n},Y', 'STA {n}+1', 'LDA #<{n}', 'LDA #>{n}', 'JMP ({n})', 'INC {n},X', 'LDA #{n}', 'JSR {n}'],
             'sms': ['LD HL,{n}', 'LD A,{n}', 'OUT ({n}),A', 'IN A,({n})', 'LD A,({n})', 'LD ({n}),HL', 'LD IX,{n}+2', 'AND {n}', 'LD A,<{n}', 'JP {n}'],
             'psx': []}[plat]
        for n in PLAT_NAMES[plat]:
            for l in u:
                case(l.format(n=n))
                case(l.lower().format(n=n))
        c.trace('names %s' % plat, cases)
        # the instructions, literals, byte order and directives of the processor
        col = Collector(c)
        ins(col)
        for lines, org, pre, optional, steady in sorted(col.collected, key=lambda x: x[1]):
            lines = [l for l in lines if not re.match(steady, l)]
            isa(c, 'instructions %s' % plat, k, c.rnd.sample(lines, min(len(lines), c.n(2500, 12000))), org=org, rejects=c.n(300, 3000), pre=list(pre) + (['.upto 336'] if plat == 'gb' else []), optional=optional, respelled=False)
        c.gen('programs %s' % plat, ['.dw %s1234, l' % h, '.dd %s12345678' % h, '.fill 336', '.db %s7f, 200' % h, 'l:', '.org %s1000' % h, '.align 4', 'q: .dw q-1', '.repeat 2', '.endrepeat', '.macro m x', '.dw x', '.endmacro', 'm 513',
                                     {'gb': 'LD HL,l', 'nes': 'JMP l', 'sms': 'LD HL,l', 'psx': 'lui $t0,l'}[plat], {'gb': 'JR q', 'nes': 'BNE q', 'sms': 'JR q', 'psx': 'addiu $t0,$t1,0x1234'}[plat], '.cartridge', '.tiles x.png',
                                     '.chr_pattern_table x.png', '.cartridge_title "X"', '.nosuch'], k, c.n(3, 4), loose=True)
