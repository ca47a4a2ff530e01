"""Seeded random programs of the test CPU, used as histories for trace validation."""
from core import config, field, nt

FULL_NT = nt(hexp=['0x', '$'], binp=['0b', '%'], octp=['0o', '@'], decp=['0d'], hexs=['h'], bins=['y'], octs=['q'], decs=['t'])

# instruction shapes: absolute and relative, plain and in bit ranges, filtered, aligned, several fields
RICH = {
    'NOP': dict(t='const', b=[0xEA]),
    'TWO': dict(t='const', b=[0x12, 0x34]),
    'LDB': dict(t='field', b=[0xA9, 0], f=[field(off=1)]),
    'LD': dict(t='field', b=[0xAA, 0, 0], f=[field(size=2, bits=16, off=1)]),
    'LDL': dict(t='field', b=[0xAB, 0, 0, 0, 0], f=[field(size=4, bits=32, off=1)]),
    'IMM': dict(t='field', b=[0xAC, 0], f=[field(off=1, signed=True)]),
    'JR': dict(t='field', b=[0x18, 0], f=[field(off=1, rel=[2])]),
    'JRL': dict(t='field', b=[0x19, 0, 0], f=[field(size=2, bits=16, off=1, rel=[3])]),
    'MOVE': dict(t='field', b=[0xAD, 0, 0, 0, 0], f=[field(size=2, bits=16, off=1), field(size=2, bits=16, off=3)]),
    'BITS': dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=8, rng=[23, 16]), field(size=4, bits=8, rng=[7, 0])]),
    'BF': dict(t='field', b=[0, 0, 0, 0x80] , f=[field(size=4, bits=16, rng=[15, 0])]),
    'JA': dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=28, align=4, filt='shr2', rng=[25, 0])]),
    'BR': dict(t='field', b=[0, 0, 0, 0], f=[field(size=4, bits=18, align=4, filt='shr2', rng=[15, 0], rel=[4])]),
    'BH': dict(t='field', b=[0x40, 0, 0, 1], f=[field(size=4, bits=10, rng=[17, 8], rel=[4])]),
    'TW': dict(t='field', b=[0xAF, 0, 0], f=[field(size=2, bits=12, off=1)]),
    'HI': dict(t='field', b=[0xAE, 0], f=[field(off=1, bits=16, filt='shr8')]),
}


class Gen:
    """Most programs are meant to be accepted (safe): operands in range, labels where they may be, movements forward."""

    def __init__(self, rnd, insts=RICH, labels='abcdef', nums=None, safe=None):
        self.r = rnd
        self.insts = insts
        self.labels = ['l' + c for c in labels]
        self.nums = nums
        self.safe = rnd.random() < .75 if safe is None else safe
        self.aligned = rnd.random() < .5      # labels are placed at multiples of four
        self.at = 0

    def num(self, bits=8):
        r = self.r
        if self.safe:
            v = r.choice([0, 1, 2, (1 << (bits - 1)) - 1, r.randrange(1 << (bits - 1)), r.randrange(1 << (bits - 1)) >> r.randrange(bits)])
        else:
            v = r.choice([0, 1, 2, (1 << (bits - 1)) - 1, (1 << (bits - 1)), (1 << bits) - 1, 1 << bits, r.randrange(1 << bits),
                          r.randrange(1 << bits), r.randrange(1 << bits), -1, -(1 << (bits - 1)), -(1 << (bits - 1)) - 1, -r.randrange(1 << bits)]
                         if r.random() < .5 else [r.randrange(1 << bits), r.randrange(1 << bits) >> r.randrange(bits)])
        if v < 0:
            return str(v)
        return r.choice([str(v), str(v), '0x%x' % v, '$%X' % v, '0b' + bin(v)[2:], '0d%d' % v, '0o%o' % v])

    def label(self):
        return self.r.choice(self.labels)

    def term(self, bits=8):
        return self.label() if self.r.random() < .5 else self.num(bits)

    late = True      # labels may follow a literal in an expression (then they have to be defined before)

    def expr(self, bits=8, depth=2):
        r = self.r
        if self.safe:
            first = self.label() if r.random() < .5 else self.num(max(2, bits - 3))
            x = r.choice(['', '', '', '<', '<>'] + ['>', '>>', '<<'] * (bits > 8)) + first
            for _ in range(r.randrange(depth + 1)):
                x += r.choice(['+%s', '+%s', '&%s', '/%s', '|%s']) % r.choice(['1', '3', '0x2', '$1', '0b11', '7'])
            return x
        first = self.term(bits)
        x = r.choice(['', '', '', '', '<', '>', '<<', '><']) + first
        for _ in range(r.randrange(depth + 1)):
            op = r.choice('+-+-*/&|')
            x += op + (self.num(r.choice([3, 8, 12])) if r.random() < .7 or (not self.late and first not in self.labels) else self.label()).lstrip('-')
        return x

    def operand(self, f, simple):
        if self.safe and f.get('align', 1) > 1:
            return self.label() if self.aligned and self.r.random() < .7 else str(4 * self.r.randrange(64))
        return self.term(f['bits']) if simple or self.r.random() < .6 else self.expr(f['bits'])

    def inst(self, simple=False):
        r = self.r
        n = r.choice(list(self.insts))
        d = self.insts[n]
        if d['t'] != 'field':
            return n
        return n + ' ' + ', '.join(self.operand(f, simple) for f in d['f'])

    def data(self):
        r = self.r
        n, b = r.choice([('.db', 8), ('.byte', 8), ('.dw', 16), ('.word', 16), ('.dd', 32), ('.dl', 32), ('.dword', 32)])
        el = lambda: '"%s"' % ''.join(r.choice('abc;,: ()xyz') for _ in range(r.randrange(1, 5))) if r.random() < .15 \
            else (self.term(b) if r.random() < .7 else self.expr(b))
        return n + ' ' + ', '.join(el() for _ in range(r.randrange(1, 5)))

    def define(self, name):
        return ['.align 4', name + ':'] if self.safe and self.aligned else [name + ':']

    def missing(self, lines):
        """the definitions of the labels which the lines do not define"""
        have = {l[:-1] for l in lines if l.endswith(':')}
        return [x for l in self.labels if l not in have for x in self.define(l)]

    def moves(self):
        if not self.safe:
            return moves(self.r)
        r = self.r
        self.at += 40
        return r.choice(['.fill %d' % r.randrange(9), '.fill 0x%x 0x%x' % (r.randrange(9), r.randrange(256)), '.align %d' % r.choice([1, 2, 4, 8, 16, 5]),
                         '.ram %d' % r.randrange(1, 20), '.ram 4', '.goto %d' % self.at, '.goto 0x%x $%x' % (self.at, r.randrange(256))] if self.at < 200 else ['.fill 1', '.align 4', '.ram 2', '.align 2'])

    def origins(self):
        if not self.safe:
            return origins(self.r)
        self.at += 48
        return '.org 0x%x' % self.at if self.r.random() < .5 else '.org %d %d' % (self.at, self.at + 47)

    def program(self, n, kinds):
        """kinds: list of (weight, callable)"""
        out, free = [], list(self.labels)
        self.r.shuffle(free)
        for _ in range(n):
            k = self.r.choices([k for _, k in kinds], [w for w, _ in kinds])[0]
            if k == 'label':
                if free:
                    out += self.define(free.pop())
            else:
                x = k()
                out += x if isinstance(x, list) else [x]
        return out


def moves(r):
    return r.choice(['.fill %d' % r.randrange(9), '.fill 0x%x 0x%x' % (r.randrange(9), r.randrange(256)), '.align %d' % r.choice([1, 2, 3, 4, 8, 16, 5]),
                     '.ram %d' % r.randrange(1, 20), '.goto %d' % r.randrange(120), '.upto %d' % r.randrange(80), '.upto %d $%x' % (r.randrange(80), r.randrange(256)),
                     '.goto %d 0x%x' % (r.randrange(150), r.randrange(256))])


def origins(r):
    a = r.choice([0, 4, 8, 16, 32, 64, 100, 0x1000, 0x8000])
    if r.random() < .5:
        return '.org 0x%x' % a
    return '.org 0x%x 0x%x' % (a, a + r.choice([0, 1, 3, 7, 15, 31, 63]))
