"""C19-C22: what the platforms add to their CPU; C16, C17: the tools and the object format."""
import json, os
from core import config, plat_config, PLAT_NAMES
from progs import *
from checks_tool import nes_tool


def text(r, n, alphabet='ABCxyz 0!-;,'):
    return ''.join(r.choice(alphabet) for _ in range(n))


def values(r, size, top):
    """operands of a header field around its size"""
    k = r.random()
    if k < .4:
        return '"%s"' % text(r, r.choice([1, size - 1 or 1, size, size, size + 1, 3]))
    if k < .8:
        return ', '.join(r.choice([str(r.randrange(256)), '$%x' % r.randrange(256), '-%d' % r.randrange(1, 129), '%s' % bin(r.randrange(256)).replace('0b', '%')]) for _ in range(r.choice([1, size, size, size + 1])))
    return r.choice(['"A", 1', '1, "BC"', '', '256', '-129', '$-1', 'lab', '1+1', '"', "'A'", "'A', 'B'", '<$1234', '"AB" $43', 'LY', '"\\""'])


# ------------------------------------------------------------------------------------------------ C19
def C19(c):
    r = c.rnd
    k = plat_config('gb')
    c.gen('header', ['.fill 256', '.fill 255 1', '.db 7', '.cartridge', '.fill 256 3\n.cartridge', '.org 0 $14f\n.fill 256', '.org $4000', '.cartridge_title "GAME"', '.cartridge_title "TITLETITLETITLE16"',
                     '.cartridge_title "TITLETITLETITLE6"', '.cartridge_cgb $80', '.cartridge_license "01"', '.cartridge_license 1,2,3', '.cartridge_sgb 3', '.cartridge_type $1b', '.cartridge_destination 0',
                     '.cartridge_type', '.db <LCDC, >LCDC', 'a: .dw a'], k, c.n(2, 3))
    fields = dict(title=16, license=2, cgb=1, sgb=1, type=1, destination=1)
    cases = []
    for i in range(c.n(220, 2500)):
        src = [r.choice(['.fill 256', '.fill 256', '.fill 250\n.db 1,2,3,4,5,6', '.org $0\nx: .fill 256 $ff', '.org 0 $ff', '.fill 255', '.fill 257', '.fill 128\n.align 256', '.upto 256'])]
        if r.random() < .1:
            src.insert(0, '.cartridge_title "EARLY"')
        src.append(r.choice(['.cartridge'] * 9 + ['.cartridge\n.cartridge', '', '.CARTRIDGE', '.cartridge x']))
        for _ in range(r.randrange(5)):
            f = r.choice(list(fields))
            src.append('.cartridge_%s %s' % (f, values(r, fields[f], 256)))
            if r.random() < .3:
                src.append(r.choice(['.db %d' % r.randrange(256), 'l%d: .dw l%d' % (len(src), len(src)), '.fill %d $%x' % (r.randrange(300), r.randrange(256)), '.dw %s' % r.choice(PLAT_NAMES['gb']), '.org $4000']))
        src.append('.fill %d %d\n.db %s' % (r.choice([0, 1, 100, 700]), r.randrange(256), ','.join(str(r.randrange(256)) for _ in range(r.randrange(1, 40)))))
        ops = [dict(op='asm', src='\n'.join(src), file=''), dict(op='bytes'), dict(op='link')]
        if r.random() < .3:
            ops += [dict(op='link')]
        cases.append(dict(cfg=k, ops=ops, loose=True))
    for n in PLAT_NAMES['gb']:
        cases.append(dict(cfg=k, ops=[dict(op='asm', src='.dw %s, %s+1\n.fill 400' % (n, n), file=''), dict(op='link')]))
    # every field at every length, with numbers and with a text; neighbours keep their bytes
    for f, size in fields.items():
        for n in range(0, 19):
            for v in (','.join(str(65 + i) for i in range(n)), '"%s"' % 'ABCDEFGHIJKLMNOPQRST'[:n]):
                cases.append(dict(cfg=k, ops=[dict(op='asm', src='.fill 256\n.cartridge\n.cartridge_%s %s\n.db 9' % (f, v), file=''), dict(op='link')], loose=True))
    cases.append(dict(cfg=k, ops=[dict(op='asm', src='.fill 256\n.cartridge\n.cartridge_title "BIG"\n.fill %d $ff\n.db 1,2,3' % c.n(2000, 32000), file=''), dict(op='link'), dict(op='link')]))
    c.trace('cartridges', cases)


# ------------------------------------------------------------------------------------------------ C20
def C20(c):
    r = c.rnd
    k = plat_config('nes')
    c.gen('header', ['.db 7', '.cartridge', '.fill 16', '.org $8000', '.cartridge_prg_roms 4', '.cartridge_chr_roms $10', '.cartridge_prg_roms 1,2', '.cartridge_prg_roms', '.cartridge_chr_roms "A"',
                     '.cartridge_chr_roms 300', '.dw PPUCTRL', 'a: .dw a', '.ram 3'], k, c.n(3, 4))
    cases = []
    for i in range(c.n(150, 1500)):
        src = [r.choice(['', '', '', '.org $8000', '.org $10 $ff', '.db 1', '.ram 5', '.fill 0'])]
        src.append(r.choice(['.cartridge'] * 9 + ['', '.cartridge\n.cartridge']))
        for _ in range(r.randrange(5)):
            src.append('.cartridge_%s %s' % (r.choice(['prg_roms', 'chr_roms']), values(r, 1, 256)))
            if r.random() < .4:
                src.append(r.choice(['.db %d' % r.randrange(256), 'l%d: .dw l%d' % (len(src), len(src)), '.org $8000 $801f', '.dw %s' % r.choice(PLAT_NAMES['nes'])]))
        cases.append(dict(cfg=k, ops=[dict(op='asm', src='\n'.join(src), file=''), dict(op='link'), dict(op='link')], loose=True))
    for n in PLAT_NAMES['nes']:
        cases.append(dict(cfg=k, ops=[dict(op='asm', src='.dw %s, %s+1' % (n, n), file=''), dict(op='link')]))
    for f in ('prg', 'chr'):
        for n in range(0, 6):
            for v in (','.join(str(2 + i) for i in range(n)), '"%s"' % 'ABCDEF'[:n]):
                cases.append(dict(cfg=k, ops=[dict(op='asm', src='.cartridge\n.cartridge_%s_roms %s\n.db 9' % (f, v), file=''), dict(op='link')], loose=True))
    c.trace('headers', cases)
    nes_tool(c)


# ------------------------------------------------------------------------------------------------ C21
def image(r, w, h, colors, mode='P', bad=False):
    px = [r.randrange(colors) for _ in range(w * h)]
    if bad and px:
        px[r.choice([0, len(px) - 1, r.randrange(len(px))])] = r.choice([colors, colors + 1, 255])
    return dict(t='image', mode=mode, w=w, h=h, px=px)


def C21(c):
    r = c.rnd
    for plat, colors, d in (('gb', 4, 'tiles'), ('sms', 16, 'tiles'), ('nes', 4, 'chr_pattern_table')):
        fixed = plat == 'nes'
        size = lambda: (128, 128) if fixed else r.choice([(8, 8), (16, 8), (8, 16), (24, 16)])
        one = {}
        for n in range(c.n(2, 3)):
            one['i%d.png' % n] = image(r, *size(), colors)
        one['mode.png'] = image(r, *size(), colors, mode='RGB')
        one['size.png'] = image(r, *((8, 8) if fixed else (12, 8)), colors)
        one['bad.png'] = image(r, *size(), colors, bad=True)
        c.gen('conversion %s' % plat, ['.%s %s' % (d, n) for n in one] + ['.%s "i0.png"' % d, '.%s none.png' % d, '.%s' % d, '.%s i0.png x' % d, 'a: .db 1', '.dw a', '.fill 336'],
              plat_config(plat, files=one), c.n(1, 1) if fixed else c.n(2, 3))
        cases = []
        for i in range(c.n(6, 30) if fixed else c.n(60, 500)):
            fs = {}
            for n in range(r.randrange(1, 3)):
                w, h = (128, 128) if fixed and r.random() < .8 else (r.choice([0, 8, 16, 24, 40]), r.choice([8, 16, 8, 24, 0])) if r.random() < .85 else (r.randrange(1, 30), r.randrange(1, 30))
                fs['p%d.png' % n] = image(r, w, h, r.choice([colors, colors, 2]), mode=r.choice(['P'] * 12 + ['L', 'RGB', 'RGBA', '1', 'PA']), bad=r.random() < .1)
            src = ['.fill %d' % r.choice([0, 336])]
            for n in fs:
                src += ['l%s: .%s %s' % (n[1], d, n), '.dw l%s' % n[1]]
            cases.append(dict(cfg=plat_config(plat, files=fs), ops=[dict(op='asm', src='\n'.join(src), file=''), dict(op='bytes'), dict(op='link')]))
        # every palette value in every position of a row
        if not fixed:
            for p in range(8):
                px = [0] * (8 * 16)
                for v in range(16):
                    px[v * 8 + p] = v % colors
                cases.append(dict(cfg=plat_config(plat, files={'row.png': dict(t='image', mode='P', w=8, h=16, px=px)}), ops=[dict(op='asm', src='.%s row.png' % d, file=''), dict(op='bytes')]))
        # sizes which fill the cells in one direction only, or in none
        for w, h in [(128, 64), (64, 256), (256, 64), (128, 120), (120, 128), (128, 136), (136, 128), (8, 2048), (128, 0), (0, 128), (0, 0), (64, 64), (127, 129), (512, 32)] if fixed else \
                [(w, h) for w in (0, 1, 4, 8, 12, 16, 32, 64) for h in (0, 1, 2, 4, 8, 12, 16, 64)]:
            fs = {'p.png': image(r, w, h, colors)}
            cases.append(dict(cfg=plat_config(plat, files=fs), ops=[dict(op='asm', src='.%s p.png' % d, file=''), dict(op='bytes')]))
        c.trace('images %s' % plat, cases)

