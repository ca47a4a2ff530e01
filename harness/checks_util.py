"""C33: bit-field and byte packing."""
import json, os, tempfile
import real
from real import big, unbig

PACK_CFG = 'SPECIFICATION PackSpec\nINVARIANTS Holds Rejects Report\nCHECK_DEADLOCK FALSE\n'
PACKERS = {}
for n, s, b in (('pack_byte', 1, False), ('pack_8s', 1, False), ('pack_le16u', 2, False), ('pack_le16s', 2, False),
                ('pack_be16u', 2, True), ('pack_be16s', 2, True), ('pack_le32u', 4, False), ('pack_le32s', 4, False),
                ('pack_be32u', 4, True), ('pack_be32s', 4, True), ('pack_le64u', 8, False), ('pack_le64s', 8, False)):
    PACKERS[n] = dict(size=s, big=b)
BITPACKERS = {'pack_bits_le32u': dict(size=4, big=False), 'pack_bits_le16u': dict(size=2, big=False),
              'pack_bits_be16u': dict(size=2, big=True)}


def _call(item):
    from necroassembler import utils
    name, a = item

    def run():
        f = getattr(utils, name)
        if name in PACKERS:
            return list(f(*a))
        base, args = a
        if name == 'pack_bit':
            return f(base, *[(h, v) for h, l, v in args])
        v = f(base, *[((h, l), v) for h, l, v in args])
        return list(v) if name in BITPACKERS else v
    e, msg, v = real.guarded(run)
    return (e, v)


def C33(c):
    r = c.rnd
    w = c.n(3, 4)
    calls, todo = [], []
    none = dict(size=8, big=False)
    edge = lambda n: r.choice([0, 1, -1, (1 << n) - 1, 1 << n, (1 << n) + 1, -(1 << n), (1 << (n - 1)), (1 << (n - 1)) - 1, -(1 << (n - 1)),
                               -(1 << (n - 1)) - 1, 1 - (1 << n), r.randrange(1 << n), -r.randrange(1 << n), r.randrange(1 << (n + 3))])
    for i in range(c.n(3000, 40000)):
        k = r.randrange(4)
        if k == 0:
            name = r.choice(list(PACKERS))
            vals = [edge(8 * PACKERS[name]['size']) for _ in range(r.randrange(1, 4))]
            calls.append(dict(base=big(0), args=[], vals=[big(v) for v in vals], kind=PACKERS[name]))
            todo.append((name, tuple(None if v == 0 and r.random() < .3 else v for v in vals)))     # nothing is written as 0
            continue
        name = r.choice(['pack_bits', 'pack_bits', 'pack_bit'] + list(BITPACKERS))
        word = 64 if name in ('pack_bits', 'pack_bit') else BITPACKERS[name]['size'] * 8
        cuts = sorted(r.sample(range(word + 1), r.choice([2, 4, 6])))
        parts = [(b - 1, a) for a, b in zip(cuts[::2], cuts[1::2])]
        if name == 'pack_bit':
            parts = [(l, l) for h, l in parts]
        elif r.random() < .1:
            p = r.randrange(len(parts))
            parts[p] = (parts[p][1] - r.randrange(1, 3), parts[p][1]) if parts[p][1] > 3 else parts[p]
        args = [(h, l, r.choice([0, 1]) if h <= l and r.random() < .8 else edge(h - l + 1) if r.random() < .25 and h >= l else
                 r.randrange(1 << max(0, h - l + 1))) for h, l in parts]
        base = r.randrange(1 << word) if r.random() < .7 else 0
        for h, l, _ in args:
            for x in range(l, h + 1):
                base &= ~(1 << x)
        r.shuffle(args)
        calls.append(dict(base=big(base), args=[dict(hi=h, lo=l, v=big(v)) for h, l, v in args], vals=[], kind=BITPACKERS.get(name, none)))
        todo.append((name, (base, tuple(args))))
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(dict(w=w, vals=[-(1 << w) - 1, (1 << w) + 1], calls=calls), f)
    try:
        out, st = c.tlc('Pack', PACK_CFG, env={'CASES': f.name})
    finally:
        os.unlink(f.name)
    items, want = [], []
    for o in out:
        if o['c']:
            name, a = todo[o['c'] - 1]
            items.append((name, a))
            want.append((o['err'], None if o['err'] else o['b'] if name in PACKERS or name in BITPACKERS else unbig(o['v'])))
        else:
            items.append(('pack_bits', (unbig(o['base']), tuple((a['hi'], a['lo'], unbig(a['v'])) for a in o['args']))))
            want.append((o['err'], None if o['err'] else unbig(o['v'])))
    if sum(1 for o in out if o['c']) != len(calls):
        from tlc import TlcError
        raise TlcError('missing cases')
    for it, x, g in zip(items, want, real.parallel(_call, items)):
        c.compare('packing', dict(src='%s%r' % it, form=it[0]), x, g)
    c.traces += len(items)
    c.note('packing', calls=len(items), rejected=sum(1 for x in want if x[0]), enumerated=len(items) - len(calls))
    for i in (0, len(items) // 2, len(items) - 1):
        c.sample(dict(call='%s%r' % items[i], predicted=want[i]))
