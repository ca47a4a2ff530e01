"""Checks of the assembler core: exhaustive model exploration replayed in the code, and recorded runs validated by the model."""
from core import *
from progs import Gen, RICH, FULL_NT, moves, origins
from sizes import sized

BASIC = {k: RICH[k] for k in ('NOP', 'LD', 'LDB', 'JR')}


def cfg(**k):
    k.setdefault('nt', FULL_NT)
    k.setdefault('insts', RICH)
    return config(**k)


def with_sizes(check):
    def both(c):
        check(c)
        sized(c)
    both.__name__ = check.__name__
    return both


def ops_of(c, lines, g=None, split=True, names=(), file='', relink=False, probe=True):
    """The program as one to three assemble calls, followed by queries and the link."""
    r = c.rnd
    if probe:
        out = []
        for l in lines:
            out.append(l)
            if r.random() < .25:
                out.append('.probe')
        lines = out
    ops = []
    cuts = sorted(r.sample(range(1, len(lines)), min(r.randrange(3), max(0, len(lines) - 1)))) if split and len(lines) > 2 else []
    prev = 0
    for cut in cuts + [len(lines)]:
        ops.append(dict(op='asm', src='\n'.join(lines[prev:cut]), file=file))
        prev = cut
    ops += [dict(op='addr', name=n) for n in names]
    ops.append(dict(op='link'))
    if relink:
        ops.append(dict(op='link'))
    return ops


def randoms(c, part, n, kinds_of, size=10, cfgs=None, insts=RICH, split=True, msg=False, relink=False, file='', probe=True):
    cases = []
    for i in range(n):
        g = Gen(c.rnd, insts)
        k = cfgs[i % len(cfgs)] if cfgs else cfg(insts=insts)
        lines = g.program(c.rnd.randrange(2, size + 1), kinds_of(g))
        # most programs define most of the names they use
        if g.safe:
            lines += g.missing(lines)
        elif c.rnd.random() < .85:
            defined = {l[:-1] for l in lines if l.endswith(':')}
            for l in g.labels:
                if l not in defined:
                    lines.insert(c.rnd.randrange(len(lines) + 1), l + ':')
        cases.append(dict(cfg=k, ops=ops_of(c, lines, g, split=split, names=g.labels[:3], relink=relink, file=file, probe=probe), msg=msg))
    c.trace(part, cases)


# ------------------------------------------------------------------------------------------------ C01
@with_sizes
def C01(c):
    import real, tlc
    inv = 'INVARIANTS Emit TypeOK LinesGrow LinesTrue LineNo TokensOK Lost\nPROPERTIES AppendOnly\nCHECK_DEADLOCK FALSE\n'
    for alpha, ml in ((1, c.n(4, 5)), (2, c.n(4, 5)), (3, c.n(6, 8))):
        out, st = c.tlc('TokenizerGen', 'SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\n AlphaId = %d\n%s' % (ml, alpha, inv))
        texts = [dict(op='lex', src=o['text'], file='f.S' if len(o['text']) % 2 else '') for o in out]
        chunks = [texts[i:i + 500] for i in range(0, len(texts), 500)]
        got = [g for ch in real.parallel(_lex_chunk, chunks) for g in ch]
        for o, t, g in zip(out, texts, got):
            want = dict(err='Raw' if o['err'] else '', stmts=[dict(s, file=t['file']) for s in o['out']] if not o['err'] else [])
            c.compare('lexer', dict(src=t['src']), want, dict(err=g['err'], stmts=g['stmts'] if not g['err'] else []))
        c.traces += len(out)
        c.note('exhaustive texts over alphabet %d up to length %d' % (alpha, ml), texts=len(out), states=st['states'])
        c.sample(dict(text=out[-1]['text'], statements=out[-1]['out'], err=out[-1]['err']))
    # long texts
    frag = ['ab', 'x1', '.db', 'lab:', ':', '"s t;r"', '"a\\"b"', "'q'", "'\\''", '(', ')', '[', '{', '}', ']', ',', ' ', '\t', '\n', '\n\n', '\r\n', '\r',
            ';', '; c "om\' ment', 'a+b', '#1', '<x', '-2', '@', '$ff', '%1', '\\', '"', "'", 'é', '€', '.', '..', '_z', '&', '|', '*', '/', '!', '=', '?', '"multi\nline"']
    cases = []
    for _ in range(c.n(250, 3000)):
        r = c.rnd
        s = ''.join(r.choice(frag) if r.random() < .8 else r.choice('abc \n') for _ in range(r.randrange(1, 30)))
        if r.random() < .5:
            s = s.replace("'", '').replace('"', '') if r.random() < .5 else s.replace(':', ' ')
        cases.append(dict(cfg=cfg(), ops=[dict(op='lex', src=s, file=r.choice(['', 'dir/a.S', 'b']))]))
    # structured lines: what was written is what is read
    words = ['LD', 'a', '(', ')', '[', ']', '{', '}', '"x;y z"', "'k'", "','", '#$12', 'a+1', '<lo', '.db', '"(a:b)"', "';'", "':'"]
    for _ in range(c.n(150, 2000)):
        r = c.rnd
        lines = []
        for _ in range(r.randrange(1, 8)):
            t = r.random()
            if t < .15:
                lines.append('')
            elif t < .3:
                lines.append('l%d:' % r.randrange(99) + r.choice(['', ' ', ' NOP', 'NOP', ' ; c']))
            else:
                lines.append(r.choice(['', ' ', '\t']) + ''.join(w + r.choice([' ', ', ', ',', '\t', '  ']) for w in (r.choice(words) for _ in range(r.randrange(1, 6))))
                             + r.choice(['', '', '; end', ';"', ";it's"]))
        cases.append(dict(cfg=cfg(), ops=[dict(op='lex', src=r.choice(['\n', '\n', '\r\n']).join(lines), file='t.asm')]))
    c.trace('random texts', cases)


def _lex_chunk(ops):
    import real
    return [real.lex(o) for o in ops]


# ------------------------------------------------------------------------------------------------ C02
@with_sizes
def C02(c):
    c.gen('programs', ['a:', 'b:', 'NOP', 'LD a', 'JR b', '.dw a+1', '.org 0x10', '.org 4 9', '.ram 3', '.align 4', '.db 1,2', '.probe'],
          cfg(insts=BASIC), c.n(3, 4))
    c.gen('macros and repeats', ['a:', '.macro M x', 'LD x', 'LDB 1', '.endmacro', 'M a', '.repeat 3', '.endrepeat', '.probe', '.section s R', '.org 7'],
          cfg(insts=BASIC), c.n(3, 4))
    randoms(c, 'random', c.n(220, 3000), lambda g: [(4, g.inst), (3, 'label'), (2, g.data), (2, g.moves), (1, g.origins),
                                                    (1, lambda: '.probe')], size=14, cfgs=[cfg(), cfg(big=True), cfg(fillv=0xA5)])
    # the same program in one call and in several: same labels, bytes and counter
    pairs = []
    for _ in range(c.n(60, 600)):
        g = Gen(c.rnd)
        lines = g.program(10, [(4, g.inst), (3, 'label'), (2, g.data), (1, lambda: '.ram 2'), (1, lambda: '.org 0x%x' % c.rnd.randrange(99)), (1, lambda: '.align 4'), (.4, lambda: '.org 0x%x' % c.rnd.randrange(9999) if not g.safe else '.fill 5')])
        lines += g.missing(lines) if g.safe else []
        k = c.rnd.randrange(1, len(lines)) if len(lines) > 1 else 1
        names = [l[:-1] for l in lines if l.endswith(':')]
        q = [dict(op='addr', name=n) for n in names] + [dict(op='link')]
        pairs.append((dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(lines), file='')] + q),
                      dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(lines[:k]), file=''), dict(op='asm', src='\n'.join(lines[k:]), file='')] + q)))
    c.equiv('split calls', pairs)


# ------------------------------------------------------------------------------------------------ C03
SHAPES = ['NOP', 'a:', 'b:', 'LD a', 'LDL b', 'JRL a', 'JR a', 'BITS a, b', 'MOVE b, a', 'HI a', '.align 4', 'BR a', 'JA b', '.dw >a']


@with_sizes
def C03(c):
    for big in (False, True):
        c.gen('shapes big=%s' % big, SHAPES, cfg(big=big), c.n(3, 4) if not big else c.n(2, 3))
    randoms(c, 'random', c.n(200, 3000), lambda g: [(8, g.inst), (3, 'label'), (2, g.data), (1, lambda: '.align 4'), (1, lambda: '.org 0x%x' % c.rnd.choice([0, 16, 256, 5000]))],
            size=12, cfgs=[cfg(), cfg(big=True)], probe=False)
    # the position of the definition does not matter: label before or after its uses at the same address
    pairs = []
    for _ in range(c.n(60, 500)):
        g = Gen(c.rnd)
        g.late = False
        body = [g.inst() for _ in range(4)] + [g.data()]
        k = c.rnd.randrange(len(body) + 1)
        at = 0x20
        early = ['.org 0x%x' % (at + i) for i in ()]
        defs = []
        for i, l in enumerate(g.labels):
            defs += ['.org 0x%x' % (8 * i + 4 * c.rnd.randrange(12)), l + ':']
        org = ['.org 0x40']
        pairs.append(tuple(dict(cfg=cfg(big=bool(len(pairs) % 2)), ops=[dict(op='asm', src='\n'.join(x), file=''), dict(op='link')])
                           for x in (defs + org + body, org + body + defs)))
    c.equiv('definition before or after use', pairs, fields=('bytes', 'labels'))


# ------------------------------------------------------------------------------------------------ C04
@with_sizes
def C04(c):
    c.gen('names', ['a:', 'b:', 'a-b:', '12:', '$ff:', 'A:', ':', '.x:', 'LD a', 'LD b+c', 'LD a+c', 'LD A', 'JR c', '.db c', '.dd a', 'FOO', '.foo', 'a'],
          cfg(insts=BASIC), c.n(2, 3))
    names = ['a', 'b1', '_x', '.loc', 'a.b', 'A', 'é', 'q', '1a', '0x1', '$1', '10', '-1', '+', 'a+b', 'a-b', 'a*b', 'a/b', 'a&b', 'a|b', '<a', '>a', 'a#', '#a', 'a$', 'a@',
             '%1', '@7', '0b1', '0b', '0x', '0d9', '12h', '12y', '7q', '9t', "a'"[:1], 'a~', 'a?', 'a!', 'a=', '9', '09', '1_0', '_1', '1__0', 'h', 'ffh', 'é', 'z']
    cases = []
    for n in names:
        for use in ('LD', 'JR', 'BITS 1,', '.db', '.dw', '.db_to_ascii', 'LD 1+', 'LD <'):
            for d in ('', n + ':'):
                for order in ((0, 1) if d else (0,)):
                    s = ['%s %s' % (use, n) if not use.endswith(('+', '<')) else use + n, 'NOP'] + ([d] if d else [])
                    cases.append(dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(s[::-1] if order else s), file=''), dict(op='addr', name=n), dict(op='link')]))
    c.rnd.shuffle(cases)
    c.trace('label names', cases[:c.n(350, 5000)])
    cases = []
    for op in '+-*/&|':
        for first in ('z', 'v', '0', '3', 'w', '<v', '>z', 'nowhere'):
            for tail in ('nowhere', '2%snowhere' % op, 'nowhere%s2' % op, 'v%snowhere' % op, 'v', 'V', '0*nowhere', '0&nowhere'):
                for use in c.rnd.sample(['LD', 'JR', '.dd', '.dw_to_ascii', 'BITS 1,', 'BR', '.db'], c.n(1, 4)):
                    s = ['.org 0', 'z: .db 1,2,3,4,5', 'v:', '%s %s%s%s' % (use, first, op, tail), '.align 4', 'w:']
                    cases.append(dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(s), file=''), dict(op='addr', name=first + op + tail), dict(op='link')]))
    c.trace('unknown terms', cases)
    randoms(c, 'missing', c.n(150, 2000), lambda g: [(8, g.inst), (2, 'label'), (2, g.data), (1, lambda: '.dw_to_ascii ' + g.label()),
                                                    (.3, lambda: g.label() + ':'), (.2, lambda: 'lz: ZZZ'), (.2, lambda: '.zzz 1'), (.5, g.origins), (.5, g.moves)], size=7, probe=False)
    c.gen('names in places', ['a:', 'b: NOP', '.org 8', '.org 0x100', '.section s R', '.section t R 32', '.macro m\nLD a\n.endmacro', 'm', '.repeat 2', '.endrepeat', 'LD b', '.ram 4', '.include c.inc'],
          cfg(insts=BASIC, files={'c.inc': dict(t='text', src='a:\nLD b')}), c.n(3, 4))


# ------------------------------------------------------------------------------------------------ C05
@with_sizes
def C05(c):
    cases = []
    bits_of = {'LDB': 8, 'LD': 16, 'LDL': 32, 'IMM': 8, 'JR': 8, 'JRL': 16, 'BITS': 8, 'BF': 16, 'BR': 18, 'JA': 28, 'HI': 16, 'BH': 10, 'TW': 12}

    def edges(b):
        return [0, 1, (1 << b - 1) - 1, 1 << b - 1, (1 << b - 1) + 1, (1 << b) - 1, 1 << b, (1 << b) + 1, 2 << b]
    lits = []
    for n, b in bits_of.items():
        for v in edges(b):
            for t in (str(v), '-%d' % v, '0x%x' % v, '0d%d' % v, '0d-%d' % v, '0b' + bin(v)[2:], '$-%x' % v, '%d-%d' % (v, 2 * v), '0x%x-%d' % (v, v + 1), '%d+1' % (v - 1)):
                lits.append('%s %s' % (n, t) + (', 3' if n == 'BITS' else ''))
    for n, b in ('.db', 8), ('.dw', 16), ('.dd', 32), ('.fill 1', 8), ('.goto 4', 8), ('.upto 4', 8), ('.db_to_ascii', 8), ('.dw_to_asciiz', 16):
        for v in edges(b):
            lits += ['%s %s' % (n, t) for t in (str(v), '-%d' % v, '0x%x' % v)]
    # decimal, signed and unsigned fields of every width of the test cpu's programmable instruction
    insts = dict(RICH)
    widths = list(range(1, 33)) if c.thorough else [1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 26, 31, 32]
    for w in widths:
        for s in (False, True):
            insts['F%d%s' % (w, 'S' if s else 'U')] = dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=w, signed=s)])
        insts['G%d' % w] = dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=w, rng=[w - 1, 0])])
        insts['R%d' % w] = dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=w, rel=[4])])
    for w in widths:
        for k in 'SU':
            for v in edges(w)[:7]:
                lits += ['F%d%s %s' % (w, k, t) for t in (str(v), '-%d' % v, '0x%x' % v)]
        lits += ['G%d %s' % (w, t) for v in edges(w)[:7] for t in (str(v), '-%d' % v)]
    K = cfg(insts=insts)
    c.rnd.shuffle(lits)
    for l in lits[:c.n(2600, 100000)]:
        cases.append(dict(cfg=K, ops=[dict(op='asm', src=l, file=''), dict(op='link')]))
    c.trace('literals at the limits', cases)
    # labels at the limits
    cases = []
    for n, b in bits_of.items():
        for v in edges(b) + [edges(b)[3] - 4, (1 << b) - 4]:
            if v < 1 << 40:
                cases.append(['.org 0x%x' % v, 'q:', '.org 0', n + ' q' + (', 1' if n == 'BITS' else '')])
                cases.append(['.org 0', 'q:', '.org 0x%x' % v, n + ' q' + (', 1' if n == 'BITS' else '')])
                cases.append(['q:', n + ' q+%d' % v + (', 1' if n == 'BITS' else '')])
                cases.append(['q:', n + ' q-%d' % v + (', 1' if n == 'BITS' else '')])
    for w in widths:
        for v in edges(w)[:8]:
            for d in (0, 4):
                cases.append(['.org 0x%x' % (v + d), 'q:', '.org 0', 'R%d q' % w])
                cases.append(['.org 0', 'q:', '.org 0x%x' % max(0, v - d), 'R%d q' % w])
                cases.append(['.org 0x%x' % (v), 'q:', '.org 0', 'G%d q' % w])
                cases.append(['.org 0x%x' % (v), 'q:', '.org 0', 'F%dU q' % w] + ['F%dS q' % w] * (d > 0))
    for n, b in ('.db', 8), ('.dw', 16), ('.dd', 32), ('.db_to_ascii', 8), ('.dw_to_ascii', 16):
        for v in edges(b):
            cases.append(['.org 0x%x' % v, 'q:', '.org 0', n + ' q'])
            cases.append(['q:', n + ' q-%d' % v])
    for al in (1, 2, 3, 4):
        for n in ('JA', 'BR'):
            cases.append(['.org %d' % al, 'q:', '.org 64', n + ' q', n + ' q+%d' % (4 - al)])
    c.rnd.shuffle(cases)
    c.trace('labels at the limits', [dict(cfg=K, ops=[dict(op='asm', src='\n'.join(s), file=''), dict(op='link')]) for s in cases[:c.n(1700, 100000)]])


# ------------------------------------------------------------------------------------------------ C06
def literal_tokens(c, n, nots):
    r = c.rnd
    digs = {16: '0123456789abcdefABCDEF', 10: '0123456789', 8: '01234567', 2: '01'}
    out = []
    for _ in range(n):
        kind, base, marks = r.choice(nots)
        body = ''.join(r.choice(digs[base]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 8])))
        if r.random() < .15:
            body = body[:1] + r.choice(['_', 'g', '8', '2', '-', '+', ' ', '.', 'x', '__', '9', 'A', 'f', '0x', '0b']) + body[1:]
        m = r.choice(marks) if marks else ''
        if r.random() < .1:
            m = m.upper()
        out.append(m + body if kind == 'p' else body + m)
        if r.random() < .12:                      # in an expression
            kind, base, marks = r.choice(nots)
            m = r.choice(marks) if marks else ''
            body = ''.join(r.choice(digs[base]) for _ in range(r.choice([1, 1, 2, 3])))
            out[-1] += r.choice('+--*/&|') + (m + body if kind == 'p' else body + m)
    return [t for t in out if t]


@with_sizes
def C06(c):
    nts = [FULL_NT, NT0, nt(), nt(hexp=['&H', '#'], binp=['!'], octs=['o', 'O'], decs=['d']), nt(hexs=['h', 'H'], hexp=['0x'])] + \
          [CPU_NT[k] for k in CPU_NT]
    cases = []
    for i, t in enumerate(nts):
        nots = [('p', 16, t['hexp']), ('p', 2, t['binp']), ('p', 8, t['octp']), ('p', 10, t['decp']), ('s', 16, t['hexs']), ('s', 2, t['bins']),
                ('s', 8, t['octs']), ('s', 10, t['decs']), ('p', 10, ['']), ('p', 10, ['', '-', '+'])]
        own = [x for x in nots if x[2]]
        allm = [('p', 16, ['$', '0x', '0X', '0h', '#', '&H']), ('p', 2, ['%', '0b', '0y']), ('p', 8, ['@', '0o', '0q']), ('p', 10, ['0d']), ('s', 16, ['h', 'H']),
                ('s', 2, ['b', 'y']), ('s', 8, ['o', 'q']), ('s', 10, ['d', 't'])]
        toks = literal_tokens(c, c.n(70, 700), own) + literal_tokens(c, c.n(40, 400), allm)
        toks += ["'%s'" % ch for ch in 'aZ09 +-*/&|<>#$"'] + ["'ab'", "'", "''", 'abc', '_1', '1_2', '0x', '$', '%', '-', '+5', '--5', '-0', '007', '0b2', '$g', '@8', '1e3', '1.5', "'é'", '5']
        cpu = list(CPU_NT)[i - 5] if i >= 5 else ''
        k = cpu_config(cpu) if cpu else config(nt=t)
        for j in range(0, len(toks), 40):
            ops = []
            for tok in toks[j:j + 40]:
                ops.append(dict(op='int', tok=tok, bits=c.rnd.choice([8, 16, 32, 64, 64]), signed=c.rnd.random() < .3))
            cases.append(dict(cfg=k, ops=ops))
        # values at the limits of the fields in every notation: only decimal ones are signed
        edges = []
        for kind, base, marks in own:
            for m in marks:
                for v in c.rnd.sample([127, 128, 129, 200, 255, 256, 32767, 32768, 65535, 65536], c.n(3, 10)):
                    d = {16: '%x', 10: '%d', 8: '%o'}.get(base, '') % v if base != 2 else bin(v)[2:]
                    d = m + d if kind == 'p' else ('0' * (base == 16) + d) + m
                    for tok in (d, d + '-%d' % (v + c.rnd.randrange(1, 140)), '-' + d):
                        edges += [dict(op='int', tok=tok, bits=b, signed=s) for b in (8, 16) for s in (False, True)]
        for j in range(0, len(edges), 40):
            cases.append(dict(cfg=k, ops=edges[j:j + 40]))
        # and where numbers are accepted
        for tok in c.rnd.sample(toks, min(len(toks), c.n(12, 100))):
            if not set(tok) & set(' ;:,()[]{}\'"\\'):
                for d in ('.dd ' + tok, '.org ' + tok, '.fill 3 ' + tok, '.db %s+1' % tok):
                    cases.append(dict(cfg=k, ops=[dict(op='asm', src=d + '\n.probe', file=''), dict(op='link')]))
    c.trace('tokens', cases)
    c.gen('literals', ['.db ' + t for t in ("'a'", "'+'", '255', '-128', '0xff', '$FF', '0xg', '%101', '11y', '0b3', '@17', '17q', '0d12', '12h', '1ah', '1_1', 'x', '$', "'ab'")],
          cfg(insts={}), c.n(1, 2))
    # several instances with different notations do not influence each other
    many = []
    for _ in range(c.n(60, 500)):
        cpu = c.rnd.choice(list(CPU_NT))
        many.append(dict(cfg=cpu_config(cpu), ops=[dict(op='int', tok=t, bits=64, signed=False) for t in ['$10', '0x10', '10h', '%1', '0b1', '1b', '@7', '0o7', '7q', '7o', '0d5', '5d', '0y1', '10']]))
    c.interleaved('notations of different cpus', many)


# ------------------------------------------------------------------------------------------------ C07
@with_sizes
def C07(c):
    atoms = ['3', 'a', '0x10']
    c.gen('expressions', ['a:', '.org 5'] + ['.dd ' + e for e in ('a+1', '2+a', '7-2*3', '9/2+1', '<a', '>a+0x100', '12&10|1', 'a*a', "'+'+1", '1-', 'a+', '-3+4', 'b+1', '1+b', '<<0x12345')],
          cfg(insts={}), c.n(2, 3))
    cases = []
    r = c.rnd
    sels = ['', '', '', '<', '>', '<<', '>>', '<>', '><', '<<<', '><<', '<><', '>><']

    def lit():
        v = r.choice([0, 1, 2, 3, 255, 256, 0xFFFF, r.randrange(1 << 16), r.randrange(1 << 32), r.randrange(1 << 63)])
        return r.choice(['%d', '0x%x', '$%X', '0o%o', '0d%d']) % v
    for _ in range(c.n(90, 800)):
        ops, defs = [], []
        for i in range(6):
            defs.append('.org 0x%x\nl%d:' % (r.choice([0, 1, 7, 0x12, 0x1234, 0x123456, 0xFEDCBA98, r.randrange(1 << 40)]), i))
        ops.append(dict(op='asm', src='\n'.join(defs), file=''))
        for _ in range(14):
            lab = r.random() < .5
            first = 'l%d' % r.randrange(7) if lab else r.choice([lit(), lit(), "'%s'" % r.choice('a+-*/&|<>'), '-%d' % r.randrange(300)])
            e = r.choice(sels) + first
            for _ in range(r.randrange(4)):
                e += r.choice('+-*/&|') + r.choice([lit(), lit(), 'l%d' % r.randrange(6), '', 'l%d' % r.randrange(8)] if r.random() < .6 else [lit()])
            ops.append(dict(op='addr', name=e) if lab else dict(op='int', tok=e, bits=r.choice([8, 16, 32, 64, 128, 256]), signed=r.random() < .3))
        cases.append(dict(cfg=cfg(), ops=ops))
    c.trace('random expressions', cases)
    # a term may be a literal, a define or a label of that value
    pairs = []
    for _ in range(c.n(60, 600)):
        v, w = r.choice([0, 1, 5, 0x1234, r.randrange(1 << 20)]), r.choice([1, 2, 3, 0xFF, r.randrange(1, 1 << 12)])
        e = lambda x, y: '.dd %s%s%s%s%s' % (r2.choice(sels), x, r2.choice('+*/&|'), y, r2.choice(['', '+1', '*2', '&0xff']))
        import random
        seed = r.random()
        progs = []
        for how in range(4):
            r2 = random.Random(seed)
            x, y = ('0x%x' % v, '0x%x' % w) if how == 0 else ('VX', 'VY') if how == 1 else ('lx', 'ly') if how < 3 else ('lx', 'VY')
            lines = [e(x, y) for _ in range(3)]
            pre = ['.define VX 0x%x' % v, '.define VY 0x%x' % w]
            lab = ['.org 0x%x' % v, 'lx:', '.org 0x%x' % w, 'ly:', '.org 0']
            progs.append(pre + (lab + lines if how != 3 else ['.org 0'] + lines + lab))
        mk = lambda p: dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(p), file=''), dict(op='link')])
        pairs += [(mk(progs[0]), mk(p)) for p in progs[1:]]
    c.equiv('literal, define and label terms', pairs, fields=('bytes',))


# ------------------------------------------------------------------------------------------------ C08
@with_sizes
def C08(c):
    c.gen('regions', ['.org 4 7', '.org 6', '.org 8 9', '.org 20', '.org 0 0', '.org 9 8', '.org 7 7', '.db 1', '.db 1,2,3,4', '.section s R 12', '.ram 2', 'a:'],
          cfg(fillv=0x5A, insts={}), c.n(3, 4))
    c.gen('adjacent regions', ['.org 0 3', '.org 4 5', '.org 2 9', '.org 3 3', '.db 1', '.db 1,2', '.fill 3', '.dw a', 'a:'], cfg(insts={}), c.n(3, 5))
    r = c.rnd

    def reg(g):
        a = r.choice([0, 4, 8, 16, 24, 32, 48, 64, r.randrange(100)])
        return '.org %d' % a if r.random() < .25 else '.org %d %d' % (a, max(0, a + r.choice([-1, 0, 1, 3, 7, 8, 15, 31, r.randrange(40)])))

    def asc(g):
        g.at = getattr(g, 'at', 0) + r.randrange(12)
        s = '.org %d %d' % (g.at, g.at + r.choice([0, 3, 7, 9, 15]))
        g.at += r.randrange(12)
        return s
    randoms(c, 'random regions', c.n(120, 1500), lambda g: [(4, lambda: reg(g)), (4, lambda: '.db ' + ','.join(['7'] * r.randrange(1, 7))), (1, lambda: '.ram %d' % r.randrange(1, 5)),
                                                         (1, 'label'), (1, lambda: 'LD ' + g.label()), (1, lambda: '.align 4'), (.5, lambda: '.section s%d RX %d' % (r.randrange(99), r.randrange(80)))], size=9,
            cfgs=[cfg(fillv=0xEE), cfg()])
    randoms(c, 'ascending regions', c.n(150, 1500), lambda g: [(4, lambda: asc(g)), (3, lambda: '.db ' + ','.join(['7'] * r.randrange(1, 6))), (1, 'label'), (1, lambda: '.dw ' + g.label())], size=9,
            cfgs=[cfg(fillv=0xEE), cfg()])
    big = []
    for a in (0, 0x100, 0x8000, 0xFFF0, 0xFFFFFF00, (1 << 63) + 5):
        for s in (0, 1, 255, 0x1FFF):
            for fill in (0, 1, s, s + 1):
                big.append(dict(cfg=cfg(fillv=3), ops=[dict(op='asm', src='.org 0x%x 0x%x\n.fill %d 9\n.probe' % (a, a + s, fill), file=''),
                                                       dict(op='asm', src='.org 0x%x\n.db 1' % (a + s + 1), file=''), dict(op='link')]))
    c.trace('region sizes', big)


# ------------------------------------------------------------------------------------------------ C09
@with_sizes
def C09(c):
    c.gen('moves', ['.goto 6', '.goto 2 0x11', '.upto 5', '.upto 3 7', '.fill 2', '.fill 3 9', '.align 4', '.align 3', '.ram 2', '.ram 0', '.org 16', '.org 4', '.db 1,2', '.fill x', '.upto 1 256', '.goto'],
          cfg(fillv=0xCC, insts={}), c.n(3, 4))
    c.gen('moves in regions', ['.org 4 9', '.org 4 20', '.org 16 17', '.align 8', '.align 16', '.ram 3', '.fill 5', '.goto 12', '.upto 8', '.db 1', '.align 2', 'a:'], cfg(fillv=0xCC, insts={}), c.n(3, 4))
    r = c.rnd
    randoms(c, 'random moves', c.n(250, 3000), lambda g: [(6, g.moves), (2, lambda: '.db ' + ','.join(['7'] * r.randrange(1, 7))), (1, lambda: '.org %d' % r.randrange(60)), (.5, lambda: '.org %d %d' % ((a := r.randrange(60)), a + r.randrange(9))),
                                                       (1, 'label'), (.3, lambda: r.choice(['.fill', '.fill 1 2 3', '.ram', '.ram -1', '.align 0', '.align', '.align x', '.goto x', '.upto', '.fill -1', '.goto 5 300', '.upto 99 x', '.ram 0x5']))],
            size=8, cfgs=[cfg(fillv=0xEE), cfg()])
    asc = []
    for _ in range(c.n(60, 600)):
        lines, pc, org = [], 0, 0
        for _ in range(6):
            k = r.choice(['goto', 'upto', 'fill', 'align', 'ram', 'org'])
            v = r.choice(['', ' 0x%x' % r.randrange(256), ' %d' % -r.randrange(1, 129)])
            d = r.randrange(20)
            if k == 'goto':
                lines.append('.goto %d%s' % (pc + d, v)); pc += d
            elif k == 'upto':
                lines.append('.upto %d%s' % (pc - org + d, v)); pc += d
            elif k == 'fill':
                lines.append('.fill %d%s' % (d, v)); pc += d
            elif k == 'ram':
                lines.append('.ram %d' % (d + 1)); pc += d + 1
            elif k == 'align':
                a = r.choice([1, 2, 4, 8, 16, 256, 3, 7, 10]); lines.append('.align %d' % a); pc = -(-pc // a) * a
            else:
                org = pc = r.choice([0, 100, 1000, r.randrange(1 << 34)]); lines.append('.org %d' % org)
            lines += ['.probe', '.db 1']; pc += 1
        asc.append(dict(cfg=cfg(fillv=r.choice([0, 255])), ops=[dict(op='asm', src='\n'.join(lines), file=''), dict(op='link')]))
    c.trace('forward moves', asc)


# ------------------------------------------------------------------------------------------------ C10
@with_sizes
def C10(c):
    P = ['.db 1,-2', '.dw 0x1234', '.dd 0x12345678', '.db "ab", 3', '.dw "hi"', '.dd "x"', '.db a', '.dw a,b', '.dd b', '.db_to_ascii 7, a', '.dw_to_asciiz 300, b', '.byte \'q\'', 'a:', 'b:', '.org 200']
    c.gen('data little endian', P, cfg(insts={}), c.n(2, 3))
    c.gen('data big endian', P, cfg(insts={}, big=True), c.n(2, 3))
    r = c.rnd

    def asc(g):
        w = r.choice(['db', 'dw'])
        t = lambda: r.choice([str(r.choice([0, 7, 10, 99, 100, 255, 256, 300, 9999, 65535, 65536])), g.label(), '0x%x' % r.randrange(300), '"%d"' % r.randrange(500), '-1', g.label() + '+1'])
        return '.%s_to_ascii%s %s' % (w, r.choice(['', 'z']), ', '.join(t() for _ in range(r.randrange(1, 4))))
    randoms(c, 'random data', c.n(220, 3000), lambda g: [(6, g.data), (3, lambda: asc(g)), (2, 'label'), (.5, lambda: '.org %d' % r.choice([0, 100, 200, 9990, 60000])), (.5, lambda: '.fill 3 0xff')],
            size=8, cfgs=[cfg(), cfg(big=True)], probe=False)
    uni = [dict(cfg=cfg(big=b), ops=[dict(op='asm', src='.%s %s' % (d, ', '.join('%s%s%s' % (q, ''.join(r.choice(' !#$%&()*+,-./09:;<=>?@AZ[]^_`az{|}~\t' + 'é€' * (d[-1] in 'wdl')) for _ in range(r.randrange(1, 9))), q)
                                                                           for q in ('"', "'"))), file=''), dict(op='link')])
           for b in (False, True) for d in ('db', 'dw', 'dd', 'byte', 'word', 'dword', 'dl') for _ in range(c.n(3, 30))]
    c.trace('texts', uni)


# ------------------------------------------------------------------------------------------------ C11
def csvfile(rows, r=None):
    """rows of columns; with r written with quotes, blank lines and other line ends"""
    col = lambda v: '"%s"' % v if v == '' or ',' in v or r and '"' not in v and r.random() < .3 else v
    eol = r.choice(['\n', '\n', '\r\n', '\n\n']) if r else '\n'
    return dict(t='vals', raw=eol.join(','.join(col(v) for v in x) for x in rows) + (r.choice(['', eol]) if r else eol), vals=[v for row in rows for v in row], keys={})


def jsonfile(d):
    import json
    flat = {}

    def walk(p, v):
        for k, x in v.items():
            if isinstance(x, dict):
                walk(p + [k], x)
            else:
                flat['.'.join(p + [k])] = ['#int:%d' % e if isinstance(e, int) else e for e in x]
    walk([], d)
    return dict(t='vals', raw=json.dumps(d), vals=[], keys=flat)


@with_sizes
def C11(c):
    files = {'a.inc': dict(t='text', src='NOP\nx:\n.db 1\n'), 'b.inc': dict(t='text', src='.include "a.inc"\nLD x'), 'c.bin': dict(t='bin', bytes=[1, 2, 255]),
             'd.csv': csvfile([['1', '0x2'], ['255']]), 'e.csv': csvfile([['300', '$1234']]), 'f.json': jsonfile({'k': {'v': [1, 255, '0x10']}, 'w': [256]}),
             'g.csv': csvfile([['1', 'lab']])}
    c.gen('includes', ['.include "a.inc"', '.include b.inc', '.incbin c.bin', '.inccsv d.csv', '.inccsv e.csv', '.inccsv_le16 e.csv', '.incjson f.json k.v', '.incjson f.json w', '.incjson f.json k.z',
                       '.inccsv g.csv', '.include none', '.org 4 9', 'x:', '.probe', '.include'], cfg(files=files, insts=BASIC), c.n(2, 3))
    r = c.rnd
    cases, pairs = [], []
    for i in range(c.n(110, 1200)):
        g = Gen(r)
        # a program cut into a tree of files
        lines = g.program(r.randrange(4, 14), [(4, g.inst), (2, g.data), (2, 'label'), (1, g.moves), (.7, g.origins), (.5, lambda: '.probe'), (.5, lambda: '.section s%d RW' % r.randrange(9999))])
        lines += g.missing(lines) if g.safe else []
        fs = {}

        def cut(ls, depth):
            if depth == 0 or len(ls) < 2:
                return list(ls)
            a, b = sorted(r.sample(range(len(ls) + 1), 2))
            name = 'f%d.inc' % len(fs)
            fs[name] = None
            fs[name] = dict(t='text', src='\n'.join(cut(ls[a:b], depth - 1)) + r.choice(['', '\n']))
            return list(ls[:a]) + ['.include %s' % r.choice([name, '"%s"' % name])] + list(ls[b:])
        main = cut(lines, r.randrange(1, 4))
        k = cfg(files=fs, fillv=7)
        q = [dict(op='addr', name=n) for n in g.labels] + [dict(op='link')]
        a = dict(cfg=k, ops=[dict(op='asm', src='\n'.join(main), file='main.S')] + q, msg=True)
        pairs.append((a, dict(cfg=cfg(fillv=7), ops=[dict(op='asm', src='\n'.join(lines), file='main.S')] + q)))
        cases.append(a)
        if i % 3 == 0:
            k2 = cfg(files=dict(fs, main=dict(t='text', src='\n'.join(main))), fillv=7)
            cases.append(dict(cfg=k2, ops=[dict(op='file', name='main')] + q, msg=True))
    c.trace('include trees', cases)
    c.equiv('include equals inline', pairs)
    vals = []
    for i in range(c.n(90, 1000)):
        n = r.randrange(1, 6)
        v = lambda b: r.choice([str(r.randrange(1 << b)), '0x%x' % r.randrange(1 << b), '$%x' % r.randrange(1 << b), '-%d' % r.randrange(1, 1 << b - 1), str((1 << b) - 1)] + ([str(1 << b), 'lab', "'a'", '5+1', '0xzz', '', ' 7', '7 ', '$', '1,2'] if r.random() < .25 else []))
        rows = lambda b: [[v(b) for _ in range(r.randrange(1, 5))] for _ in range(n)]
        fs = {'x.csv': csvfile(rows(8), r), 'y.csv': csvfile(rows(16), r), 'z.bin': dict(t='bin', bytes=[r.randrange(256) for _ in range(r.choice([0, 1, 5, 300]))]),
              'w.json': jsonfile({'a': {'b': {'c': [r.choice([r.randrange(256), v(8)]) for _ in range(n)]}, 'd': [r.randrange(300) for _ in range(2)]}, 'e': [v(8) for _ in range(n)]})}
        src = ['.org %d' % r.randrange(99), '.probe'] + r.sample(['.incbin z.bin', '.incbin "z.bin"', '.inccsv x.csv', '.inccsv_le16 y.csv', '.inccsv_le16 "y.csv"', '.incjson w.json a.b.c', '.incjson "w.json" "e"',
                                                                 '.incjson w.json a.d', '.inccsv y.csv', '.db 9', 'LD x', '.incbin gone.bin', '.incbin', '.incjson w.json q', '.incjson w.json', '.incjson w.json a', '.incjson w.json a.b.c.d'], 3 if i % 2 else 1) + ['.probe', 'x:', '.db 1']
        vals.append(dict(cfg=cfg(files=fs, big=bool(i % 4 == 0)), ops=[dict(op='asm', src='\n'.join(src), file=''), dict(op='link')]))
    for d, good in ('.inccsv', ['1', '0xff']), ('.inccsv_le16', ['0x1234', '1']), ('.incjson', [5, '0x11']):
        for bad in ('', ' ', 'lab', '0x', '$', '1 2', '"', '65536', '256', '-1', '-32769', '1.5', '+', "'a", '<300', '1+', '00', '0b11', '1e1'):
            for rows in ([[bad]], [[bad, *good]], [[good[0], bad, good[1]]], [[*good, bad]], [good, [bad]], [[bad], good], [good, [bad, bad]]):
                fs = {'x': csvfile(rows) if d != '.incjson' else jsonfile({'k': [x for row in rows for x in row]})}
                vals.append(dict(cfg=cfg(files=fs), ops=[dict(op='asm', src='.db 1\n%s x%s\n.probe' % (d, ' k' * (d == '.incjson')), file=''), dict(op='link')]))
    c.trace('data files', vals)


# ------------------------------------------------------------------------------------------------ C12
@with_sizes
def C12(c):
    c.gen('macros', ['.macro M x y', '.macro K', 'LD x', 'LDB y+1', 'NOP', '.endmacro', 'M a 3', 'M 300', 'm 5, 6', 'K', 'M (', 'a:', '.define x 9', '.probe'],
          cfg(insts=BASIC), c.n(3, 4))
    c.gen('macro histories', ['.macro P x\nLD x\nLDB x+1\nLD x\n.endmacro\n.macro Q x y\nP y\nLDB x\n.endmacro', 'P 1', 'Q 2, 3', 'P lab', 'Q lab 7', 'P 999', '.define lab 4', 'lab:'], cfg(insts=BASIC), c.n(4, 5))
    r = c.rnd
    cases, pairs = [], []
    for i in range(c.n(150, 1500)):
        g = Gen(r)
        words = ['x', 'y', 'zz', 'la', 'x1', 'X', 'a.b', 'Y', 'Zz', 'x.', 'A.b']
        params = r.sample(words, r.randrange(0, 4))
        others = [w for w in words if w not in params and w not in g.labels] if r.random() < .6 else []
        kin = [w for w in others if any(w.lower() == p.lower() or w.startswith(p) for p in params)]

        def operand(b):
            if params and r.random() < .7:
                p = r.choice(params)
                if others and r.random() < .3:
                    return r.choice(kin if kin and r.random() < .7 else others)
                return r.choice([p, p, p + '+1', '<' + p, p, p] + ([] if g.safe else ['2+' + p, p + '*' + r.choice(params), p + 'q']))
            return g.term(b)

        def binst():
            n = r.choice([k for k in RICH])
            d = RICH[n]
            return n + ' ' + ', '.join(operand(f['bits']) if f['align'] == 1 or not g.safe else g.operand(f, True) for f in d['f']) if d['t'] == 'field' else n
        body = [binst() for _ in range(r.randrange(1, 5))]
        mname = r.choice(['MAC', 'mac', 'Mac'])
        head = ['.macro %s %s' % (mname, r.choice([' ', ', ']).join(params))] + body + ['.endmacro']
        defs = ['.define %s %s' % (d, v) for d, v in (('da', r.choice(['db', '5', 'la', 'x', 'y'] if r.random() < .3 else ['7', 'lb'])), ('db', '6'))] if i % 3 == 0 else []
        defs = defs[::r.choice([1, -1])]
        lines, flat = defs + head, list(defs)
        second = r.random() < .4 and params
        if second:
            lines += ['.macro OUT p', 'NOP', '%s %s' % (mname.upper(), ' '.join(['p'] + ['5'] * (len(params) - 1))), 'LDB 1', '.endmacro']
        for _ in range(r.randrange(1, 5)):
            args = [r.choice([str(r.randrange(120 if g.safe else 200)), g.label(), '0x%x' % r.randrange(99), g.label() + '+2', '1'] + ['da', 'db', 'da+1', 'db'] * (defs != [])) for _ in params]
            if second and r.random() < .5:
                lines.append('OUT ' + args[0])
                vals = [args[0]] + ['5'] * (len(params) - 1)
                flat += ['NOP'] + [subst(b, dict(zip(params, vals))) for b in body] + ['LDB 1']
            else:
                lines.append(r.choice([mname, mname.upper(), mname.lower()]) + ' ' + ', '.join(args))
                flat += [subst(b, dict(zip(params, args))) for b in body]
            if r.random() < .4:
                x = g.inst()
                lines.append(x)
                flat.append(x)
        labs = g.missing([]) + [w + ':' for w in others]
        lines += labs
        flat += labs
        mk = lambda p: dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(p), file=''), dict(op='link')])
        pairs.append((mk(lines), mk(flat)))
        # histories: failing invocations, redefinitions, continuing after an error
        ops = []
        for _ in range(r.randrange(1, 4)):
            ops.append(dict(op='asm', src='\n'.join(head if not ops else [r.choice([mname + ' ' + ' '.join(r.choice(['1', '99999999999', 'lq', 'x', '-', '2']) for _ in params[:r.randrange(len(params) + 1)] or params),
                                                                                      mname + ' ' + ' '.join('7' for _ in params)]) for _ in range(3)]), file=''))
        cases.append(dict(cfg=cfg(), ops=ops, keep=True))
        cases.append(dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(lines), file='m.S'), dict(op='link')], msg=True))
    c.trace('invocations', cases)
    c.equiv('macro equals substituted body', pairs)
    c.trace('structure', [dict(cfg=cfg(cs=cs), ops=[dict(op='asm', src=s, file=''), dict(op='link')]) for cs in (False, True) for s in (
        '.endmacro', '.macro A\n.macro B', '.macro A\nl:\n.endmacro', '.macro', '.macro A x\nLD x\n.endmacro\nA', '.macro A x\nLD x\n.endmacro\nA 1 2', '.macro A\n.endmacro\nA', '.macro A\nNOP', '.macro A\nNOP\n.db 1\n.endmacro\nA',
        '.macro A x\n.endmacro\nA', '.macro A x x\nLD x\n.endmacro\nA 1 2', '.macro NOP\nTWO\n.endmacro\nNOP', '.macro A\nNOP\n.endmacro\n.macro A\nTWO\n.endmacro\nA', '.macro a\nNOP\n.endmacro\nA', '.macro A\nNOP\n.endmacro\na',
        '.macro A\nZZZ\n.endmacro\nNOP', '.macro A\nZZZ\n.endmacro\nA', '.macro W op x\nop x\n.endmacro\nW LD 5\nW ldb 6\nW NOPE 1', '.macro W op x\nop x\n.endmacro\nW LD 5\nW ldb 6', '.macro W op\nNOP\nop\n.endmacro\nW TWO\nw nop',
        '.macro V d x\nd x, x\n.endmacro\nV MOVE 5\nV move a\na:', '.macro A LD\nLD 5\n.endmacro\nA LDB', '.macro A x\nLDB x\nx\n.endmacro\nA NOP\nNOP:', '.repeat 2\n.macro A\nNOP\n.endmacro\nA\n.endrepeat', '.macro A y\nLD y\n.endmacro\n.define q 5\nA q', '.define y 3\n.macro A y\nLD y\n.endmacro\nA 4')])


def subst(text, d):
    import re
    out = []
    for tok in re.split(r'([ ,]+)', text):
        if tok in d:
            out.append(d[tok])
        else:
            out.append(re.sub(r'[A-Za-z0-9_.]+', lambda m: d.get(m.group(0), m.group(0)), tok))
    return ''.join(out)


# ------------------------------------------------------------------------------------------------ C13
def C13(c):
    c.gen('repeats', ['.repeat 3', '.repeat 2', '.repeat 0', '.endrepeat', '.ram 2', 'LD a', 'JR a', '.dw b', 'a:', 'b:', '.db 1', '.align 4', '.org 100', '.probe', '.db_to_ascii a'], cfg(insts=BASIC), c.n(3, 4))
    c.gen('blocks in places', ['NOP', '.org 100', '.org 8 31', '.ram 3', '.section s R', 'a:', '.repeat 3\nLD a\n.db 1\n.endrepeat', '.repeat 2\nJR a\n.endrepeat', '.repeat 2\n.org 0x20\nNOP\n.endrepeat', '.macro m\nLD a\n.endmacro', '.repeat 2\nm\n.endrepeat'],
          cfg(insts=BASIC), c.n(4, 5))
    r = c.rnd
    cases, pairs = [], []
    for i in range(c.n(160, 1500)):
        g = Gen(r)
        g.late = False
        n = r.choice([1, 2, 2, 3, 4, 7, r.randrange(1, 20)])
        pre = [r.choice([g.inst, g.data])() for _ in range(r.randrange(3))]
        body = [r.choice([g.inst, g.inst, g.data, lambda: '.fill 2 3', lambda: '.ram %d' % r.randrange(1, 9), lambda: '.db_to_ascii ' + g.label()])() for _ in range(r.randrange(0, 4))]
        post = [r.choice([g.inst, g.data])() for _ in range(r.randrange(3))]
        labs = [l + ':' for l in g.labels]
        k = r.randrange(len(labs))
        org = ['.org 0x%x' % r.choice([0, 0, 16, 64])]
        if r.random() < .4:
            org = [g.inst()] + org + [r.choice(['.ram 5', '.db 1,2', '.org 0x80\nNOP\n.org 0x100'])]
        rep = org + labs[:k] + pre + ['.repeat %s' % r.choice([str(n), '0x%x' % n])] + body + ['.endrepeat', '.probe'] + post + labs[k:]
        flat = org + labs[:k] + pre + body * n + ['.probe'] + post + labs[k:]
        q = [dict(op='addr', name=x) for x in g.labels] + [dict(op='link')]
        kk = cfg(big=bool(i % 2))
        pairs.append(tuple(dict(cfg=kk, ops=[dict(op='asm', src='\n'.join(x), file='')] + q) for x in (rep, flat)))
        cases.append(pairs[-1][0])
    for n in c.n([127, 128, 129, 200, 255, 256, 257, 300, 520], [127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000, 1025, 2000]):
        for body in r.sample([['NOP'], ['.db 1,2'], ['LDB lq'], ['JRL lq'], ['.dw lq+1', 'TWO'], ['BR lq'], ['.db_to_ascii lq'], ['mm 3'], ['.ram 3'], ['BR lq', '.ram 2', '.db 1']], c.n(3, 8)):
            mac = ['.macro mm x', 'LDB x', '.endmacro']
            q = [dict(op='addr', name='lz'), dict(op='link')]
            rep = ['lq:'] + mac + ['.repeat %d' % n] + body + ['.endrepeat', '.probe', 'lz: .db 9']
            flat = ['lq:'] + mac + body * n + ['.probe', 'lz: .db 9']
            pairs.append(tuple(dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(x), file='')] + q) for x in (rep, flat)))
            cases.append(pairs[-1][0])
    for n in c.n([1023, 1024, 1025, 4097], [1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 10000]):
        q = [dict(op='addr', name='lz'), dict(op='link')]
        pairs.append(tuple(dict(cfg=cfg(), ops=[dict(op='asm', src='\n'.join(x), file='')] + q) for x in (['lz: .repeat 0x%x' % n, '.db 7', '.endrepeat'], ['lz: .fill %d 7' % n])))
        cases.append(pairs[-1][0])
    for s in ('.repeat', '.repeat 1 2', '.repeat -1', '.repeat x', '.repeat 0', '.repeat 2\n.repeat 2', '.endrepeat', '.repeat 2\nNOP', '.repeat 2\nq:\n.endrepeat\nLD q', '.repeat 1\nNOP\n.endrepeat\n.endrepeat',
              '.repeat 3\n.endrepeat', '.repeat 2\nNOP\n.endrepeat\n.repeat 3\nTWO\n.endrepeat', '.define N 3\n.repeat N\nNOP\n.endrepeat', '.repeat 2+1\nNOP\n.endrepeat', '.repeat 2\n.ram 3\nNOP\n.endrepeat\n.probe'):
        cases.append(dict(cfg=cfg(), ops=[dict(op='asm', src=s, file=''), dict(op='link')]))
    c.trace('blocks', cases)
    c.equiv('repeat equals copies', pairs)


# ------------------------------------------------------------------------------------------------ C14
@with_sizes
def C14(c):
    c.gen('defines', ['.define FOO 5', '.define FOO BAR', '.define BAR 7', '.define FO 1', '.db FOO', 'LDB FOO+FO', 'LDB xFOO', 'LDB FOOx', 'FOO:', 'LDB foo', 'BAR:', '.define LDB NOP', '.db "FOO"', '.define .db .dw', '.define .define FOO', '.fill FOO'], cfg(insts=BASIC), c.n(3, 4))
    r = c.rnd
    words = ['FOO', 'foo', 'FOOBAR', 'BAR', 'F', 'FOO.x', 'FOO_1', '.FOO', 'l1', 'x']
    cases = []
    for i in range(c.n(300, 3500)):
        lines, good, named = [], i % 3, []
        if good:                                  # meant to be accepted: the words which are used have a meaning
            named = r.sample(words, r.randrange(2, 5))
            lines = ['.define %s %s' % (x, r.choice(['%d' % r.randrange(100), '0x%x' % r.randrange(99), '%d+%d' % (r.randrange(9), r.randrange(9))])) for x in named]
            lines.append('.org 0x%x' % r.randrange(40))
            lines += [x + ':' for x in words if x not in named]
        for _ in range(r.randrange(2, 9)):
            k = r.random()
            w = lambda: r.choice(words)
            if good and k < .7:
                x, y = r.choice(words), r.choice(named)
                u = r.choice(words)
                lines.append(r.choice(['.db ', 'LDB ', '.dw ', 'LD ', '.dd ', 'MOVE 1,']) + r.choice([x, x, y, x + '+' + y, '<' + x, '"%s"' % x, "'F'", x + '+' + y + '+1', '1+' + y, y + '*2', x + '+' + u, '2+' + u, x + '&' + u, y + '/' + '3', x + r.choice('+-*/&|') + u, r.choice(['7', x]) + r.choice('+*/&|') + y + r.choice('+*/&|') + u, '200/' + y, '"%s %s"' % (x, y)]))
                if r.random() < .3:
                    lines.append('.define %s %s' % (r.choice(named), r.choice(['7', '0x11', '1+1'])))
            elif good and k < .8:
                lines.append('.define %s %s' % (y + r.choice(['x', '_', '0', '.']), r.choice(['1', 'NOP', y, '"q"'])) if (y := r.choice(named)) else '')
            elif k < .35:
                lines.append('.define %s %s' % (w(), r.choice([str(r.randrange(100)), '0x%x' % r.randrange(200), w(), '1+2', w() + '+1', '"ab"', "'c'", 'NOP', '<0x1234'])))
            elif k < .7:
                lines.append(r.choice(['.db ', 'LDB ', '.dw ', 'LD ', '.dd ', 'MOVE 1,']) + r.choice([w(), w() + '+' + w(), w() + '*2', '<' + w(), w() + 'z', '"%s"' % w(), "'F'", '#' + w(), w() + '-' + w() + '+1', '1+' + w(), 'a' + w(), '$' + w(), w() + '$']))
            elif k < .8:
                lines.append(w() + ':')
            elif k < .9:
                if good:
                    lines.append(r.choice(['NOP', '.db 1', 'LDB 3']))
                    continue
                lines.append(r.choice([w(), w() + ' ' + w(), 'NOP', '.' + w(), '.fill ' + w() + ' ' + w(), '.org ' + w(), '.define', '.define a', '.define a b c', '.align ' + w()]))
            else:
                m = r.randrange(2)
                lines += ['.macro M%d p' % m, 'LDB %s' % r.choice(['p', w(), 'p+' + w() if not good else 'p']), '.endmacro', 'M%d %s' % (m if good else 0, w())][:r.choice([3, 4])]
        for x in ('FOO', 'BAR'):
            if r.random() < .3 and not good:
                lines.append(x + ':')
        cases.append(dict(cfg=cfg(defines={'PRE': '0x33', 'F': '9'} if i % 4 == 0 else {}, cs=bool(i % 5 == 0)), ops=ops_of(c, lines, probe=False)))
    c.trace('random defines', cases)


# ------------------------------------------------------------------------------------------------ C15
def flip(r, s):
    return ''.join(ch.upper() if r.random() < .5 else ch.lower() for ch in s)


def C15(c):
    r = c.rnd
    many = []
    for i in range(c.n(120, 1200)):
        g = Gen(r)
        lines = g.program(8, [(4, g.inst), (2, g.data), (2, 'label'), (1, lambda: '.define %s %d' % (r.choice(['FOO', 'lx', 'NOP']), r.randrange(99))), (1, lambda: '.db FOO'),
                              (1, lambda: ['.macro %s p' % r.choice(['MM', 'NOP', 'LD']), 'LDB p', '.endmacro']), (1, lambda: 'MM 3'), (1, g.origins), (.5, lambda: '.repeat 2' if not g.safe else ['.repeat 2', 'NOP', g.inst(), '.endrepeat']), (.5, lambda: '.endrepeat' if not g.safe else 'TWO'),
                              (.3, lambda: '.section s RW'), (.3, lambda: '.export la' if not g.safe else 'NOP'), (.3, lambda: '.macro Z' if not g.safe else 'MM 4'), (.3, lambda: 'lq: NOP' if not g.safe else 'nop')])
        if g.safe:
            lines = ['.define FOO 7'] * (not any('.db FOO' in l for l in lines)) + [l for l in lines if l != '.db FOO' or '.define FOO' in ' '.join(lines[:lines.index(l)])] + g.missing(lines)
            if any(l.startswith('MM ') for l in lines) and '.macro MM p' not in lines:
                lines = ['.macro MM p', 'LDB p', 'LD p', '.endmacro'] + lines
            lines = [l for l in lines if not l.startswith(('.define NOP', '.define lx')) and l not in ('.macro NOP p', '.macro LD p', '.endmacro', 'LDB p', 'LD p')] if not any(l == '.macro MM p' for l in lines) else lines
        k = r.choice([cfg(), cfg(), cfg(defines={'FOO': '5'}), cfg(big=True), cfg(pre=['f_a'], post=['f_b', 'f_c']), cfg(cs=True), cfg(nt=NT0)])
        many.append(dict(cfg=k, ops=ops_of(c, lines, names=['la', 'lx'])))
    c.interleaved('instances of test cpus', many)
    # everything one program can set up, then a program of another instance that would notice
    marks = ['.define FOO 9', '.define NEW 8', '.macro MM p\nLDB p\n.endmacro', '.macro OPEN', '.repeat 2', '.org 0x40', '.org 0x40 0x5f', 'la: NOP', '.section s RW', '.export la', '.log on',
             'LD la', '.define NOP TWO', '.macro NOP\nTWO\n.endmacro', '.ram 3', '.fill 2 7', 'BAD 1', '.include nofile', '.macro LD a\nNOP\n.endmacro']
    uses = ['.db FOO', '.db NEW', 'MM 3', 'NOP', '.endmacro', '.endrepeat', '.org 0x80\nNOP', 'la: LD la', 'LD la', '.section s RW', '.export la', '.probe\n.align 8\n.probe', 'LD 5', '.repeat 2\nNOP\n.endrepeat']
    seq = []
    for k in (cfg(), cfg(defines={'FOO': '5', 'ONE': '1'})):
        for m in marks:
            for u in uses:
                seq.append([dict(cfg=k, ops=[dict(op='asm', src=m, file='')] + ([dict(op='link')] if m == 'LD la' else [])),
                            dict(cfg=r.choice([k, k, cfg(defines={'FOO': '5'}, big=True)]), ops=[dict(op='asm', src=u, file=''), dict(op='link')])])
    r.shuffle(seq)
    c.interleaved('one instance after another', [x for g in seq[:c.n(300, 2000)] for x in g], group=2, schedule='in order')
    real_cpus = []
    for i in range(c.n(40, 400)):
        cpu = r.choice(['6502', 'z80', 'lr35902', 'mips32', 'thumb', '68000', 'ppc'])
        hx = CPU_NT[cpu]['hexp'][0]
        if i % 4 == 0:
            src = '\n'.join(r.choice(['.db 1', '.dw 0x10, a'[:8], '.define FOO 3', '.db FOO', '.dd a', 'a:', '.org 16', '.macro MM p', '.endmacro', '.db VRAM', '.dw LCDC+1', '.db RAM', '.db PPUCTRL']) for _ in range(6))
        else:
            src = '\n'.join(['.define FOO 9' if i % 2 else 'FOO:'] + r.choices(['.db 1', '.dw %s10, a' % hx, '.define FOO 3', '.dw FOO', '.dd a', '.org 16', '.dw a+FOO', '.macro mm p\nnope p\n.endmacro', '.log on', '.ram 3'], k=6) + ['a:'])
            src = src if i % 2 else src.replace('.define FOO 3', '.db 3')
        real_cpus.append(dict(cfg=cpu_config(cpu), ops=[dict(op='asm', src=src, file=''), dict(op='link')]))
    c.interleaved('instances of shipped cpus', real_cpus)
    # one literal read by every processor, each time in another order
    lits = ['$10', '0x10', '10h', '0b11', '%11', '11b', '0o17', '17q', '@17', '17o', '0d10', '10d', '$0A', "'a'", '0A', '0Ah', '1010y', '0y11', '0h10', '0q17', '$0A0', '12', '$10+%1', '0x10+1', '5+0x3', '$ff', '0ffh', '010', '1b', '#5', '<$1234', '>0x1234']
    seq = []
    for lit in lits:
        for _ in range(c.n(2, 8)):
            seq.append([dict(cfg=cpu_config(cpu), ops=[dict(op='asm', src=f % lit, file=''), dict(op='link')])
                        for cpu in r.sample(['6502', 'z80', 'lr35902', 'mips32', 'thumb', '68000', '8086', 'ppc'], 8) for f in [r.choice(['.dw %s', '.db 1, %s', '.fill %s 1', '.dd %s'])]])
    c.interleaved('a literal of all cpus', [x for g in seq for x in g], group=8, schedule='in order')
    # letter case
    cases, pairs = [], []
    for i in range(c.n(100, 1000)):
        g = Gen(r)
        lines = g.program(8, [(4, g.inst), (2, g.data), (2, 'label'), (1, g.moves), (1, lambda: ['.macro Mac p', 'LDB p', '.endmacro', 'Mac 3']), (.5, lambda: ['.repeat 2', 'NOP', '.endrepeat']), (.3, lambda: '.log off')])
        low = []
        for l in lines:
            k = l.split(' ')[0]
            if k.endswith(':'):
                low.append(l)
            elif k == '.macro':
                low.append(' '.join([flip(r, k), flip(r, 'Mac'), 'p']))
            else:
                low.append(flip(r, k) + l[len(k):])
        labs = g.missing(lines)
        mk = lambda p, cs=False: dict(cfg=cfg(cs=cs), ops=[dict(op='asm', src='\n'.join(p + labs), file=''), dict(op='addr', name='la'), dict(op='addr', name='LA'), dict(op='link')])
        pairs.append((mk(lines), mk(low)))
        cases.append(mk(low, True))
        cases.append(mk([l.replace('la', 'LA', 1) if r.random() < .3 else l for l in low]))
    c.equiv('letter case of keywords', pairs)
    c.trace('letter case', cases)
    c.gen('case sensitive', ['nop', 'NOP', 'Nop', '.DB 1', '.db 1', 'a:', 'A:', 'ld a', 'LD A', '.macro m\nNOP\n.endmacro', 'm', 'M'], cfg(cs=True, insts=BASIC), c.n(2, 3))
    c.gen('case insensitive', ['nop', 'NOP', 'Nop', '.DB 1', '.db 1', 'a:', 'A:', 'ld a', 'LD A', '.macro m\nNOP\n.endmacro', 'm', 'M'], cfg(insts=BASIC), c.n(3, 4))
    # determinism: the same program twice
    again = [m for m in many[:c.n(40, 300)]]
    c.equiv('twice', [(m, m) for m in again])


# ------------------------------------------------------------------------------------------------ C18
@with_sizes
def C18(c):
    r = c.rnd
    cases = []
    for i in range(c.n(200, 2000)):
        g = Gen(r)
        pre = sorted(r.sample(['m_pa', 'm_pb', 'm_pc'], r.randrange(3))) + r.sample(['f_x', 'f_y', 'f_z'], r.randrange(3))
        post = sorted(r.sample(['m_qa', 'm_qb', 'm_qc'], r.randrange(3))) + r.sample(['f_u', 'f_v', 'f_w'], r.randrange(3))
        k = cfg(pre=pre, post=post, big=bool(i % 2))
        ops = []
        if g.safe:
            g.labels = g.labels[:4]
            ops.append(dict(op='asm', src='\n'.join(r.choice([['NOP'], ['.org 0x10'], ['.ram 3'], []]) + [x for l in g.labels[:3] for x in g.define(l)]), file=''))
            last, g.labels = g.labels[3:], g.labels[:3]
        for n in range(r.randrange(1, 4)):
            if g.safe:                            # every call refers to what was defined before, only the last link knows everything
                lines = [r.choice([g.inst, g.data])() for _ in range(r.randrange(1, 5))]
                if last and r.random() < .5:
                    lines += g.define(last[0])
                    g.labels += last
                    last = []
            else:
                lines = [r.choice([g.inst, g.data])() for _ in range(r.randrange(1, 5))] + ([g.labels.pop() + ':'] if g.labels else [])
            ops.append(dict(op='asm', src='\n'.join(lines), file=''))
            for _ in range(r.randrange(3)):
                ops.append(r.choice([dict(op='bytes'), dict(op='addr', name=r.choice(['la', 'lb', 'lc'])), dict(op='int', tok=r.choice(['5', 'la', '0x10+3']), bits=16, signed=False)]))
            if r.random() < .4:
                ops.append(dict(op='link'))
        if g.labels and not g.safe:
            ops.append(dict(op='asm', src='\n'.join(l + ':' for l in g.labels), file=''))
        ops += [dict(op='bytes'), dict(op='link'), dict(op='bytes'), dict(op='link'), dict(op='bytes')]
        cases.append(dict(cfg=k, ops=ops))
    c.trace('histories', cases)
    cases = []
    for i in range(c.n(120, 1500)):               # through the command line entry, which takes passes and sources
        g = Gen(r)
        pre = sorted(r.sample(['m_pa', 'm_pb', 'm_pc'], r.randrange(3))) + r.sample(['f_x', 'f_y', 'f_z', 'f_a'], r.randrange(4))
        post = sorted(r.sample(['m_qa', 'm_qb', 'm_qc'], r.randrange(3))) + r.sample(['f_u', 'f_v', 'f_w', 'f_b'], r.randrange(4))
        lines = g.program(r.choice([4, 8]), [(4, g.inst), (2, g.data), (2, 'label'), (1, g.moves)])
        lines += g.missing(lines) if g.safe else []
        parts = several(c, lines, [r.randrange(1, len(lines)) for _ in range(r.randrange(4))])
        names = ['s%d.s' % j for j in range(len(parts))]
        k = cfg(pre=pre, post=post, big=bool(i % 2), files={n: dict(t='text', src='\n'.join(p) + '\n') for n, p in zip(names, parts)})
        if not g.safe and r.random() < .3:
            names.insert(r.randrange(len(names) + 1), r.choice(names))
        cases.append(dict(cfg=k, ops=[dict(op='main', names=names)], loose=True))
    c.trace('the entry of a class', cases)
    for pre, post in ((['m_a', 'f_b'], ['f_c']), ([], ['m_d', 'f_e', 'f_a'])):
        c.gen('links %s' % '+'.join(pre + post), ['a:', 'LD a', 'JR a', '.dw a+1', '.db 7', 'LDB b', '.db_to_ascii a'], cfg(pre=pre, post=post, insts=BASIC), c.n(3, 4), relink=2)



# ------------------------------------------------------------------------------------------------ C32
@with_sizes
def C32(c):
    r = c.rnd
    insts = dict(RICH, BAD=dict(t='none'), BOOM=dict(t='boom'), RAISE=dict(t='raise'))
    cases, pairs = [], []
    for i in range(c.n(200, 2000)):
        g = Gen(r)
        ok = lambda: r.choice(['NOP', 'LDB 7', '.db 1', '', '; note', 'LD 5', '.align 2'])
        bad = r.choice(['BAD 1', 'BOOM', 'RAISE r9', 'LDB 999', 'LD 1,2', 'IMM -300', 'ZZZ 1 2', 'NOP 3', 'LDB $-5', 'BITS 1', 'BITS 256, 1', 'LD 1+nolab', 'LD 1/0', 'badmac 7',
                        'ZZZ ' + ', '.join(r.choice(['x%d' % k, '%d' % (7000 + k), '"text %d"' % k, '(', ']', '#%d' % k]) for k in range(r.choice([5, 8, 20, 60]))), 'ZZ%s 1' % ('Z' * r.choice([20, 90, 300])), 'LDB ' + '1+' * r.choice([10, 100]) + '300',
                        'RAISE ' + ' '.join('r%d' % k for k in range(12)), 'BAD "%s"' % ('some text, ' * r.choice([1, 9]))])
        lines = [ok() for _ in range(r.randrange(12) if r.random() < .9 else r.choice([99, 254, 255, 256, 999, 1200]))] + [bad] + [ok() for _ in range(2)]
        fs, how = {}, r.randrange(5)
        pre = ['.macro badmac p', 'NOP', 'LDB p+%d' % r.choice([1, 300]), '.endmacro'] if 'badmac' in bad or how == 4 else []
        if how == 1:
            fs = {'in c.inc': dict(t='text', src='\n'.join(lines))}
            lines = ['NOP'] * r.randrange(4) + ['.include "in c.inc"', 'NOP']
        elif how == 2:
            fs = {'one.inc': dict(t='text', src='\n'.join(lines)), 'two.inc': dict(t='text', src='NOP\n.include one.inc')}
            lines = ['', '.include two.inc', 'NOP']
        elif how == 3:
            lines = ['.macro wrap x', 'NOP', bad, '.endmacro', 'NOP', 'wrap 4']
        elif how == 4:
            fs = {'mac.inc': dict(t='text', src='\n'.join(['; lib', ''] + pre))}
            pre, lines = ['.include mac.inc'], lines + ['badmac 255']
        src = '\n'.join(pre + lines)
        if i % 2:
            cases.append(dict(cfg=cfg(files=fs, insts=insts), ops=[dict(op='asm', src=src, file=r.choice(['', 'main.S', 'dir/x.asm', 'a directory/with spaces/and a long name which continues.S', '1', "it's"]))], msg=True))
        else:
            cases.append(dict(cfg=cfg(files=dict(fs, **{'top.S': dict(t='text', src=src)}), insts=insts), ops=[dict(op='file', name='top.S')], msg=True))
    c.trace('diagnostics', cases)
    for i in range(c.n(90, 900)):
        g = Gen(r)
        plain = g.program(9, [(4, g.inst), (2, g.data), (2, 'label'), (1, g.moves), (.5, g.origins), (.5, lambda: ['.repeat 2', 'NOP', '.endrepeat']), (.3, lambda: 'BAD' if not g.safe else 'NOP'), (.5, lambda: '.db_to_ascii ' + g.label())])
        if i % 3 or g.safe:
            plain += g.missing(plain)
        logged = []
        for l in plain:
            if r.random() < .4:
                logged.append(r.choice(['.log', '.log on', '.log ON', '.log off', '.LOG OFF']))
            logged.append(l)
        logged.insert(0, '.log on')
        mk = lambda p: dict(cfg=cfg(insts=insts), ops=[dict(op='asm', src='\n'.join(p), file='')] + [dict(op='addr', name=n) for n in g.labels] + [dict(op='link')])
        pairs.append((mk(plain), mk(logged)))
    c.equiv('logging', pairs)
    c.gen('log directive', ['.log', '.log on', '.log OFF', '.log maybe', '.log 1', 'LDB a', 'a:', '.db 1', 'BAD', '.dw a', '.log offx'], cfg(insts=dict(BASIC, BAD=dict(t='none'))), c.n(3, 4))


# ------------------------------------------------------------------------------------------------ C35
def several(c, lines, cuts):
    """the lines as so many sources"""
    cuts = sorted(set(cuts))
    return [lines[a:b] for a, b in zip([0] + cuts, cuts + [len(lines)])]


def C35(c):
    r = c.rnd
    c.gen('labels and regions', ['a:', 'LD a', 'JR a', '.org 4 9', '.ram 3', '.db 1,2', '.align 4'], cfg(insts=BASIC), c.n(4, 5), cut=True, relink=2)
    c.gen('origins', ['a: .dw a+1', '.org 0x10', '.org 4 9', '.org 8 8', '.goto 6', '.upto 3', '.fill 2 9', '.probe'], cfg(insts=BASIC, fillv=0x5A), c.n(3, 4), cut=True)
    c.gen('macros', ['.macro M x', 'LD x', '.endmacro', 'M a', 'a:', '.probe'], cfg(insts=BASIC), c.n(5, 6), cut=True)
    c.gen('repeats and sections', ['.repeat 3', '.endrepeat', 'a:', 'JR a', '.ram 1', '.section s R', '.export a'], cfg(insts=BASIC), c.n(4, 5), cut=True)
    import checks_tool
    checks_tool.parted_sections(c)
    c.gen('defines and files', ['.define A B', '.define B 5', 'LDB A', '.include i.inc', '.include j.inc', '.incbin d.bin', 'B: .dw B'],
          cfg(insts=BASIC, files={'i.inc': dict(t='text', src='.define B 6\n.db A'), 'j.inc': dict(t='text', src='.include i.inc\n.org 8 12\n.db 1'), 'd.bin': dict(t='bin', bytes=[1, 2, 3])}), c.n(4, 5), cut=True)
    kinds = lambda g: [(4, g.inst), (3, 'label'), (2, g.data), (1, g.moves), (.6, g.origins), (.7, lambda: '.define D%d %s' % (r.randrange(4), g.num())), (.7, lambda: '.db D%d' % r.randrange(4) if g.defined else 'NOP'), (.4, lambda: '.probe'),
                       (.6, lambda: ['.macro M%d x' % g.macros(), 'LD x', g.data(), '.endmacro']), (.6, lambda: 'M%d %s' % (r.randrange(g.made), g.label()) if g.made else 'NOP'),
                       (.5, lambda: ['.repeat %d' % r.randrange(1, 4), 'LD ' + g.label(), g.data(), '.endrepeat']), (.3, lambda: ['.section s%d RX' % g.sections(), g.data()])]
    def gen():
        g = Gen(r)
        g.made = g.named = 0
        g.defined = True
        def macros():
            g.made += 1
            return g.made - 1
        def sections():
            g.named += 1
            return g.named
        g.macros, g.sections = macros, sections
        lines = ['.define D%d %s' % (i, g.num()) for i in range(4)] + g.program(r.choice([6, 10, 16]), kinds(g))
        return lines + (g.missing(lines) if g.safe else [])
    cases, pairs = [], []
    for i in range(c.n(160, 2000)):
        lines = gen()
        cuts = [r.randrange(1, len(lines)) for _ in range(r.choice([1, 1, 2, 3, len(lines)]))]
        if r.random() < .15:
            lines.insert(r.randrange(len(lines) + 1), r.choice(['LDB 300', 'NOSUCH 1', 'LD', '.db', 'LDB 1 2 3', '.fill', 'JA 2', '.nosuch']))
        parts = ['\n'.join(p) for p in several(c, lines, cuts)]
        files = {'s%d.s' % j: dict(t='text', src=p) for j, p in enumerate(parts)}
        files['all.s'] = dict(t='text', src='\n'.join('.include s%d.s' % j for j in range(len(parts))))
        k = cfg(files=files, **r.choice([{}, {}, dict(big=True), dict(fillv=0xA5), dict(cs=True)]))
        names = sorted(set(l[:-1] for l in lines if re.fullmatch(r'\w+:', l)))
        q = [dict(op='addr', name=n) for n in names] + [dict(op='link'), dict(op='link')]
        texts = [dict(op='asm', src=p, file='') for p in parts]
        loads = [dict(op='file', name='s%d.s' % j) for j in range(len(parts))]
        mixed = [r.choice(x) for x in zip(texts, loads)]
        cases.append(dict(cfg=k, ops=[x for o in mixed for x in ([o, dict(op='bytes')] if r.random() < .3 else [o])] + q, loose=True, msg=True))
        if r.random() < .5:
            whole = dict(cfg=k, ops=[dict(op='asm', src='\n'.join(lines), file='')] + q)
            if not any(re.match(r'\.org \S+ \S+', l) for l in lines):        # the end of a source completes a bounded region
                pairs.append((whole, dict(cfg=k, ops=mixed + q)))
            if not any(l.startswith('.section') for l in lines):
                pairs.append((whole, dict(cfg=k, ops=[dict(op='file', name='all.s')] + q)))
    c.trace('histories', cases)
    c.equiv('one source and several', pairs)
