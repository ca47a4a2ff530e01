"""Programs beyond the sizes of ordinary tests: many labels, references, operands, defines, macros, regions, files, long tokens."""
from core import config, field
from progs import RICH, FULL_NT

SIZES = [60, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 700]


def k(**a):
    a.setdefault('nt', FULL_NT)
    a.setdefault('insts', RICH)
    return config(**a)


def text(lines, cfg=None, file='', names=(), split=0, links=1, msg=False):
    cuts = [0] + ([split] if split else []) + [len(lines)]
    ops = [dict(op='asm', src='\n'.join(lines[a:b]), file=file) for a, b in zip(cuts, cuts[1:])]
    return dict(cfg=cfg or k(), ops=ops + [dict(op='addr', name=n) for n in names] + [dict(op='link')] * links, msg=msg)


def many_labels(r, n, big):
    """n labels and references in both directions, some of them unaligned, some far away"""
    perm = list(range(n))
    r.shuffle(perm)
    lines = ['.org 0x%x' % r.choice([0, 0, 0x100, 0x1234])]
    for i in range(n):
        if r.random() < .8:
            lines.append('n%d:' % i)
            lines.append(r.choice(['LD n%d', 'LD n%d+1', 'LDL n%d', '.dw n%d', 'JRL n%d', 'MOVE n%d, 5', '.dd n%d', 'HI n%d', '.dw >n%d', 'NOP']).replace('%d', '%d' % perm[i]))
        else:
            lines += ['LD n%d' % perm[i], 'n%d: NOP' % i]
    if r.random() < .3:
        lines.append('LD n%d' % (n if r.random() < .3 else n - 1))
    return text(lines, k(big=big), names=['n0', 'n%d' % (n - 1)], split=r.choice([0, len(lines) // 2]), links=r.choice([1, 2]))


def one_label(r, n, big):
    """n references of all kinds to one label far behind or ahead"""
    use = [r.choice(['LD q', 'JRL q', '.dw q+1', 'LDL q', 'BITS 1, <q', '.dw_to_ascii q']) for _ in range(n)]
    return text(['q:'] + use if r.random() < .5 else use + ['q: NOP'], k(big=big), links=r.choice([1, 2]))


def operands(r, n, big):
    """directives with n operands"""
    d, b = r.choice([('.db', 8), ('.dw', 16), ('.dd', 32), ('.byte', 8), ('.db_to_asciiz', 8), ('.dw_to_ascii', 16)])
    els = [r.choice(['%d' % r.randrange(1 << b), '0x%x' % r.randrange(1 << b), '-1', 'q']) if 'asc' not in d or b == 16 else '%d' % r.randrange(256) for _ in range(n)]
    return text(['.org 7', 'q:', '%s %s' % (d, ', '.join(els)), '.probe', '.dw q'], k(big=big))


def long_text(r, n, big):
    s = ''.join(r.choice('abc ;:,()0+') for _ in range(n))
    return text(['%s "%s", 1' % (r.choice(['.db', '.dw', '.dd']), s), '.probe', 'q: LD q'], k(big=big))


def long_names(r, n, big):
    name = ''.join(r.choice('abcXYZ_019.') for _ in range(n))
    a, b = 'l' + name + 'a', 'l' + name + 'b'
    return text([a + ':', 'NOP', b + ':', 'LD ' + a, 'LD ' + b, '.define d%s1 5' % name, '.define d%s2 6' % name, '.db d%s1,d%s2' % (name, name), '.macro m%s x' % name, 'LD x', '.endmacro', 'm%s %s' % (name, b),
                 'M%s 3' % name.upper(), 'LD ' + (a + 'c' if r.random() < .1 else b + '+2')], names=[a, b])


def long_expr(r, n, big):
    ops = ''.join(r.choice(['+%d', '+0x%x', '-%d', '&0xff%02x', '|%d']) % r.randrange(99) for _ in range(n))
    return text(['.org 0x%x' % r.randrange(1 << 20), 'q:', '.dd q+70000' + ops, '.dd 70000' + ops, 'LDL ' + r.choice(['<<<', '>', '']) + 'q+99999' + ops])


def defines(r, n, big):
    lines = ['.define v%d %d' % (i, r.randrange(120)) for i in range(n)]
    use = ['LDB v%d' % r.randrange(n) for _ in range(20)] + ['.db ' + ','.join('v%d' % i for i in range(n)), '.dd ' + '+'.join('v%d' % r.randrange(n) for _ in range(n // 2)), '.define v%d 3' % (n - 1), '.db v%d,v0,v1,v%d' % (n - 1, n // 2), 'LD v%d' % n, 'v%d:' % n]
    return text(lines + use, split=r.choice([0, n // 2]))


def macros(r, n, big):
    lines = []
    for i in range(n):
        lines += ['.macro m%d x' % i, 'LD x+%d' % i, '.endmacro']
    order = [r.randrange(n) for _ in range(30)] + [0, n - 1]
    return text(lines + ['m%d %s' % (i, r.choice(['5', 'q'])) for i in order] + ['q:', 'm0 q'], split=r.choice([0, 3 * (n // 2)]))


def macro_calls(r, n, big):
    """the same macro over and over, with different arguments"""
    return text(['.macro m x y', 'LD x', 'LDB y', '.endmacro'] + ['m %s %d' % (r.choice(['q', 'q+1', '77', 'w', '0x%x' % r.randrange(99)]), r.randrange(256)) for _ in range(n)] + ['q:', 'w: NOP'])


def long_macro(r, n, big):
    body = [r.choice(['LD x', 'NOP', 'LDB y', 'MOVE x, q', 'LDL x+y']) for _ in range(n)]
    return text(['.macro m x y'] + body + ['.endmacro', 'm 5 6', 'm q 7', 'm q+1 8', 'q:'])


def wide_macro(r, n, big):
    n = min(n, 200)
    ps = ['p%d' % i for i in range(n)]
    body = ['LDB p%d' % r.randrange(n) for _ in range(12)] + ['LD p0+p%d' % (n - 1), 'MOVE p1, p11' if n > 11 else 'NOP']
    return text(['.macro m ' + ' '.join(ps)] + body + ['.endmacro', 'm ' + ', '.join(str(r.randrange(100)) for _ in ps), 'm ' + ' '.join('%d' % (i % 50) for i in range(n))])


def deep_macros(r, n, big):
    n = min(n, 60)
    lines = ['.macro m0 x y', 'LD x', 'LDB y', '.endmacro']
    for i in range(n):
        lines += ['.macro m%d x y' % (i + 1), 'm%d x+1 %d' % (i, i)] + (['NOP'] if i % 7 == 0 else []) + ['.endmacro']
    return text(lines + ['m%d 7 9' % n, 'm%d q 9' % (n // 2), 'q:', 'm%d 1 2' % n])


def deep_includes(r, n, big):
    n = min(n, 60)
    fs = {'f%d' % i: dict(t='text', src='NOP\n.include f%d\nLD q' % (i + 1)) for i in range(n)}
    fs['f%d' % n] = dict(t='text', src='q: NOP' + ('\nZZZ 5' if r.random() < .3 else ''))
    return text(['.include f0', 'LD q', '.probe'], k(files=fs), file='top.S', msg=True)


def many_includes(r, n, big):
    n = min(n, 130)
    fs = {'f%d' % i: dict(t='text', src='a%d: LD a%d\n.db %d' % (i, (i * 7) % n, i)) for i in range(n)}
    fs['b'] = dict(t='bin', bytes=[i % 253 for i in range(r.choice([255, 256, 4095, 4096, 4097, 8192, 65536, 70001]))])
    lines = ['.include f%d' % i for i in range(n)]
    lines.insert(r.randrange(n), '.incbin b')
    return text(lines + ['.probe'], k(files=fs), file='top.S')


def data_files(r, n, big):
    from checks_core import csvfile, jsonfile
    rows, left = [], n
    while left > 0:
        m = min(left, r.choice([1, 7, 50, 300]))
        rows.append([r.choice(['%d', '0x%x', '$%x']) % r.randrange(256) for _ in range(m)])
        left -= m
    fs = {'x.csv': csvfile(rows), 'w.json': jsonfile({'a': {'b': [r.randrange(256) for _ in range(n)]}, 'c': ['1']}), 'b': dict(t='bin', bytes=[r.randrange(256) for _ in range(n * 17)])}
    return text(['.org 3 %d' % (n * 22), r.choice(['.inccsv x.csv', '.inccsv_le16 x.csv']), '.probe', '.incjson w.json a.b', '.incbin b', 'q:', '.probe', '.org 0x10000', 'LDL q'], k(files=fs, big=big))


def regions(r, n, big):
    lines, at = [], r.choice([0, 0x100, 0x7FF0])
    n = min(n, 150)
    for i in range(n):
        size = r.randrange(1, 12)
        lines.append('.org %d %d' % (at, at + size - 1))
        lines += ['.fill %d %d' % (r.randrange(size + 1), i % 256)] if r.random() < .8 else []
        lines += ['r%d:' % i]
        at += size + r.choice([0, 0, 1, 3])
    if r.random() < .3:
        lines.append('.org %d %d' % (at - 1, at + 5))
    return text(lines + ['.dw r%d, r0' % (n - 1)], k(fillv=0xE7))


def sections(r, n, big):
    n = min(n, 150)
    lines = []
    for i in range(n):
        lines += ['.section s%d %s' % (i, r.choice(['R', 'RW', 'RX', 'RWX'])), 'LD e%d' % r.randrange(n), 'e%d: NOP' % i]
    return text(lines)


def far(r, n, big):
    """addresses beyond 32 and 64 bits"""
    a = r.choice([1 << 31, 1 << 32, (1 << 32) - 2, 1 << 40, 1 << 48, (1 << 63) - 3, (1 << 64) - 1500])
    d = r.randrange(20)
    return text(['.org 0x%x' % a, 'q: NOP', '.align %d' % r.choice([4, 8, 256, 3]), '.probe', 'w:', 'JR q' if d % 4 else 'JR w', 'JRL w', '.db <q', '.db >>>>>>>>w', '.dw >>>>w&0xffff' if a < 1 << 48 else 'NOP', '.dd w-q', '.dd <<<<q', '.ram 5', '.goto 0x%x' % (a + 300 + d), '.probe', '.upto %d' % (330 + d), '.org 0x%x 0x%x' % (a + 1000, a + 1100), 'e:', '.dw e-w', 'LD >>q' if a < 1 << 32 else 'NOP'],
                k(big=big), names=['q', 'w', 'e', 'e-q'])


def fills(r, n, big):
    a = r.choice([n, n * 16, n * 128, 4095, 4096, 65535, 65536, 66000])
    return text(['.db 1', r.choice(['.fill %d 7', '.goto %d', '.upto %d 0x9', '.align %d', '.ram %d', '.org 1 %d\n.org 0x20000']) % (a + 1), '.probe', 'q: LDL q', '.dd q'], k(fillv=0x33))


def long_line(r, n, big):
    """blank runs, comments and long statements"""
    s = 'LD' + ' ' * n + '5' + '\t' * n + ';' + 'c ' * n + '\n' + '\n' * n + 'q:' + ' ' * n + 'NOP\n' + ';\n' * n + 'ZZZ' * (r.random() < .4) + '.db' + ' 1,' * n
    return dict(cfg=k(), ops=[dict(op='lex', src=s, file='x')] if r.random() < .5 else [dict(op='asm', src=s, file='x'), dict(op='link')], msg=True)


def lex_size(r, n, big):
    w = ['w%d' % i if r.random() < .6 else r.choice(['(', ']', '"a b"', "';'", '#1', '\nl:', '\n', 'NOP\n', '; c\n', "'x'", '"open'[: 4 * (r.random() < .02)] or 'y']) for i in range(n)]
    return dict(cfg=k(), ops=[dict(op='lex', src=' '.join(w) if r.random() < .7 else ','.join(w), file='f')])


def bytes_of_calls(r, n, big):
    """the program in many calls"""
    n = min(n, 120)
    ops = []
    for i in range(n):
        use = r.choice(['LD n%d', '.dw n%d', 'JRL n%d', 'NOP\n.define d 5\n.db d\n.dd n%d', '.ram 2\n.dw n%d']) % r.randrange(n)
        ops.append(dict(op='asm', src='n%d: %s' % (i, use), file=''))
    return dict(cfg=k(big=big), ops=ops + [dict(op='addr', name='n%d' % (n - 1)), dict(op='link')])


def passes(r, n, big):
    n = min(n, 40)
    pre, post = ['f_p%d' % i for i in range(n)], ['f_q%d' % i for i in range(n)]
    r.shuffle(pre)
    return text(['q: LD q', '.dd q'], k(pre=pre, post=post), links=3)


BY_PROP = dict(
    C01=[lex_size, lex_size, long_line, long_text],
    C02=[many_labels, regions, far, fills, bytes_of_calls, sections],
    C03=[many_labels, one_label, operands, sections, bytes_of_calls],
    C04=[many_labels, long_names, bytes_of_calls],
    C05=[operands, far],
    C06=[operands],
    C07=[long_expr, long_expr, far],
    C08=[regions, far, fills],
    C09=[fills, fills, far],
    C10=[operands, operands, long_text],
    C11=[deep_includes, many_includes, data_files],
    C12=[macros, macro_calls, long_macro, wide_macro, deep_macros],
    C14=[defines, long_names],
    C18=[passes, one_label, many_labels],
    C32=[deep_includes, long_line])


def sized(c):
    r, cases = c.rnd, []
    for f in BY_PROP[c.prop]:
        for i in range(c.n(4, 40)):
            cases.append(f(r, r.choice(SIZES), i % 2 == 1))
    c.trace('sizes', cases)
