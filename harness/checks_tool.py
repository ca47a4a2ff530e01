"""C16, C17, C20 (symbol files), C22: the command line tools and the ELF linker."""
import importlib, json, os, shutil, subprocess, sys, tempfile, types
import real
from core import config, cpu_config, plat_config, nt
from tlc import TlcError
from progs import *

TOOL_CFG = 'SPECIFICATION ToolSpec\nINVARIANTS Sound NothingEarly OnlyOutputs Report\nCHECK_DEADLOCK FALSE\n'
P = 'necroassembler.'
ELFS = {'i386_elf32': dict(bits=32, big=False, type=1, machine=3, align=0),
        'ppc_elf32': dict(bits=32, big=True, type=1, machine=0x14, align=4),
        'x86_64_elf64': dict(bits=64, big=False, type=1, machine=0x3e, align=0)}
# model configuration and callable of every tool
TOOLS = {
    '6502': (cpu_config('6502'), P + 'cpu.mos6502:AssemblerMOS6502.main'),
    'z80': (cpu_config('z80'), P + 'cpu.z80:AssemblerZ80.main'),
    'lr35902': (cpu_config('lr35902'), P + 'cpu.lr35902:AssemblerLR35902.main'),
    'mips32': (cpu_config('mips32'), P + 'cpu.mips32:AssemblerMIPS32.main'),
    'thumb': (cpu_config('thumb'), P + 'cpu.thumb:AssemblerThumb.main'),
    '68000': (cpu_config('68000'), P + 'cpu.mc68000:AssemblerMC68000.main'),
    '8086': (cpu_config('8086'), P + 'cpu.intel8086:AssemblerIntel8086.main'),
    'ppc': (cpu_config('ppc'), P + 'cpu.powerpc:AssemblerPowerPC.main'),
    'gb': (plat_config('gb'), P + 'platforms.gameboy:AssemblerGameboy.main'),
    'sms': (plat_config('sms'), P + 'platforms.sms:AssemblerSegaMasterSystem.main'),
    'nes': (plat_config('nes'), P + 'platforms.nes:main'),
    'gba': (cpu_config('thumb'), P + 'platforms.gba:main'),
    'genesis': (cpu_config('68000'), P + 'platforms.genesis:main'),
    'psx': (plat_config('psx'), P + 'platforms.psx:main'),
    'i386_elf32': (cpu_config('8086'), P + 'platforms.i386_elf32:main'),
    'ppc_elf32': (cpu_config('ppc'), P + 'platforms.ppc_elf32:main'),
    'x86_64_elf64': (cpu_config('x86'), P + 'platforms.x86_64_elf64:main'),
}
# the names the package installs
ENTRIES = {'necro_6502': '6502', 'necro_thumb': 'thumb', 'necro_mips32': 'mips32', 'necro_nes': 'nes', 'necro_gb': 'gb', 'necro_sms': 'sms',
           'necro_gba': 'gba', 'necro_psx': 'psx', 'necro_z80': 'z80', 'necro_m68k': '68000', 'necro_8086': '8086', 'necro_genesis': 'genesis'}


def lookup(path):
    mod, name = path.split(':')
    o = importlib.import_module(mod)
    for n in name.split('.'):
        o = getattr(o, n)
    return o


def entry_points():
    got = {}
    fake = types.ModuleType('setuptools')
    fake.setup = lambda **k: got.update(k)
    fake.find_packages = lambda *a, **k: []
    sys.modules['setuptools'] = fake
    try:
        with open(os.path.join(real.REPO, 'setup.py')) as f:
            exec(compile(f.read(), 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
    finally:
        del sys.modules['setuptools']
    return {l.split('=')[0].strip(): l.split('=')[1].strip() for l in got.get('entry_points', {}).get('console_scripts', [])}


def snapshot():
    out = {}
    for d, _, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), '.')
            with open(p, 'rb') as h:
                out[p] = list(h.read())
    return out


def put(files):
    for n, b in files.items():
        if b is None:
            os.makedirs(n)
            continue
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, 'wb') as h:
            h.write(bytes(b))


def run_tool(case):
    """Runs one tool in a scratch directory; the observation is the exit status and the files before and after."""
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    argv = sys.argv
    try:
        os.chdir(d)
        put(case['files'])
        before = snapshot()
        if case['how'] == 'process':
            env = dict(os.environ, PYTHONPATH=real.REPO, PYTHONDONTWRITEBYTECODE='1')
            for k in ('MODEL', 'CASES'):
                env.pop(k, None)
            code = 'import sys, functools, importlib; sys.argv[0] = "tool"; functools.reduce(getattr, %r.split("."), importlib.import_module(%r))()' % tuple(reversed(case['call'].split(':')))
            if case['call'].endswith(':main'):
                cmd = [sys.executable, '-m', case['call'].split(':')[0]]
            else:
                cmd = [sys.executable, '-c', code]
            p = subprocess.run(cmd + case['args'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            exit = p.returncode
        else:
            sys.argv = ['tool'] + case['args']
            recs = []
            if case['how'] == 'class':
                def main():
                    from necroassembler.linker import ELF
                    cls = real.make_class(case['cfg'])
                    k = case['elf']
                    class Relocating(ELF):
                        def relocate(self, address, symbol_data):
                            recs.append([address, symbol_data.label])
                    linker = (Relocating if 'undef' in case['cfg'] else ELF)(k['bits'], k['big'], k['type'], k['machine'], *([k['align']] if k['align'] else []))
                    for src in case['warm']:
                        a = cls()
                        try:
                            a.assemble(src)
                            a.link(linker=linker)
                        except Exception:
                            pass
                    del recs[:]
                    cls.main(linker=linker)
            else:
                def main():
                    lookup(case['call'])()
            e, msg, _ = real.guarded(main)
            exit = 1 if e else 0
            if 'undef' in case['cfg']:
                return dict(exit=exit, before=before, after=snapshot(), recs=recs)
        return dict(exit=exit, before=before, after=snapshot())
    finally:
        sys.argv = argv
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def tool_cases(c, part, cases, timeout=800):
    obs = real.parallel(run_tool, cases)
    data, index = dict(cfgs=[], cases=[]), {}
    for k, o in zip(cases, obs):
        cfg = dict(k['cfg'], files={n: dict(t='text', src=bytes(b).decode()) if n.endswith(('.s', '.inc')) else dict(t='bin', bytes=b) for n, b in k['files'].items() if b is not None})
        key = json.dumps(cfg, sort_keys=True)
        if key not in index:
            data['cfgs'].append(cfg)
            index[key] = len(data['cfgs'])
        x = dict(cfg=index[key], tool=k['tool'], args=k['args'], nowrite=k.get('nowrite', []), **o)
        if k.get('elf'):
            x['elf'] = k['elf']
        data['cases'].append(x)
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(data, f)
    try:
        out, st = c.tlc('Tools', TOOL_CFG, env={'CASES': f.name}, timeout=timeout)
    finally:
        os.unlink(f.name)
    v = {o['c']: o for o in out}
    if set(v) != set(range(1, len(cases) + 1)):
        raise TlcError('missing verdicts: %d of %d' % (len(v), len(cases)))
    stages = {}
    for i, k in enumerate(cases, 1):
        stages[v[i]['stage']] = stages.get(v[i]['stage'], 0) + 1
        if v[i]['v'] != 'ok':
            o = obs[i - 1]
            c.fail('%s:%s' % (part, v[i]['v']), dict(src=[k['tool'], k['args'], {n: bytes(b).decode(errors='replace')[:200] for n, b in k['files'].items() if b is not None}], how=k['how'], nowrite=k.get('nowrite', []), elf=k.get('elf')),
                   dict(stage=v[i]['stage'], err=v[i]['err']), dict(exit=o['exit'], changed={n: b[:300] for n, b in o['after'].items() if o['before'].get(n) != b}))
    c.traces += len(cases)
    c.note(part, states=st['states'], runs=len(cases), **stages)
    if cases:
        c.sample(dict(part=part, tool=cases[0]['tool'], args=cases[0]['args']))


def case(tool, args, files, how='call', call=None, **k):
    enc = {n: b if b is None else list(b.encode() if isinstance(b, str) else b) for n, b in files.items()}
    d = dict(tool=tool, cfg=TOOLS[tool][0] if tool in TOOLS else k.pop('cfg'), call=call or (TOOLS[tool][1] if tool in TOOLS else ''), args=args, files=enc, how=how)
    if tool in ELFS:
        d['elf'] = ELFS[tool]
    d.update(k)
    return d


def data_lines(r, n=4):
    return '\n'.join(r.choice(['.db %d,%d' % (r.randrange(256), r.randrange(256)), '.fill %d %d' % (r.randrange(30), r.randrange(256)), '.db "T%d"' % r.randrange(99), '.dw %d' % r.randrange(65536), '.align 4']) for _ in range(r.randrange(1, n + 1)))


def part_sources(r, n):
    """n sources of one program: labels, macros, defines and origins cross from one to the next"""
    out = []
    for i in range(n):
        src = [data_lines(r)]
        src.append('L%d: .dw L%d' % (i, r.randrange(n)))
        if r.random() < .5:
            src.append('.define K%d %d' % (i, r.randrange(256)) if r.random() < .5 else '.org %d' % (256 * (i + 1)))
        if i and r.random() < .5:
            src.append('.dw L%d' % (i - 1))
        out.append('\n'.join(src) + '\n')
    return out


BREAKS = ['.nosuch 1', '.db 300', '.dw nowhere', '.macro m', '.db 1', '.org 1 0', 'L0: .db 1', '.include missing.inc', '.repeat 0', '.include part.inc', '.db LATE\nLATE: .fill 300', '.fill', 'NOSUCH 1']


# ------------------------------------------------------------------------------------------------ C16
def C16(c):
    r = c.rnd
    simple = [t for t in TOOLS if t not in ELFS]
    cases = []
    single = ('nes', 'gba', 'genesis', 'psx')
    for i in range(c.n(260, 3000)):
        tool = r.choice(simple)
        n = 1 if tool in single else r.choice([1, 1, 2, 3, 4])
        srcs = part_sources(r, n)
        if tool == 'gb' and r.random() < .8:
            srcs[0] = '.fill 256\n.cartridge\n' + srcs[0]
        if tool in ('gba', 'genesis'):
            srcs[0] = '.fill %d\n' % r.choice([600, 512, 400, 190, 100]) + srcs[0]
        names = ['s%d.s' % k for k in range(n)]
        files = dict(zip(names, srcs))
        files['part.inc'] = '.db 77\n'
        dest = r.choice(['out.bin', 'out.bin', 'a/out.bin', 'missing/out.bin', 'dir', 's0.s'])
        if r.random() < .5:
            k = r.randrange(n)
            files[names[k]] += r.choice(BREAKS) + '\n'
        if r.random() < .08:
            del files[r.choice(names)]
        if dest == 'out.bin' and r.random() < .6:
            files['out.bin'] = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 3000])))
        files['dir'] = None
        files['keep.bin'] = b'keep'
        if dest.startswith('a/'):
            files['a/other'] = b'other'
        if r.random() < .1 and n > 1:
            names[1] = names[0]
        args = names + [dest]
        if r.random() < .12:
            args = r.choice([[], args[:1], ['s0.s'], ['out.bin']])
            files['out.bin'] = b'precious'
        cases.append(case(tool, args, files, how='process' if r.random() < c.n(.08, .05) else 'call', nowrite=['missing/out.bin', 'dir']))
    tool_cases(c, 'tools', cases)
    # every installed name, as the package declares it
    cases, eps = [], entry_points()
    for name, tool in ENTRIES.items():
        pre = '.fill 600\n'
        for src, old in ((pre + 'x: .dw x\n', None), (pre + '.dw x\n', b'old')):
            files = {'s.s': src}
            if old:
                files['o'] = old
            cases.append(case(tool, ['s.s', 'o'], files, how='process', call=eps.get(name, name + ':missing')))
    tool_cases(c, 'installed tools', cases)


TEST_NT = nt(hexp=['0x'], binp=['0b'])


SYMBOLS = ['print', 'print_all', 'all', '_all', 'pri', 'l', 'l1', 'l11', 'a', 'b', 'data', 'data2', '.dot', 'main', 'mainloop', 'Main', 'MAIN', 'rt', 'start', '_start', '__start', 'x.y', 'y', 'x', 'text', '.text', 'symtab', 'strtab',
           'a_rather_long_name_for_a_symbol_which_goes_on_for_a_while_to_see_what_happens_with_it']
SECTIONS = ['.text', '.text2', '.text.hot', 'text', 't', '.data', '.data2', 'data', '.rodata', '.ro', 'ro', '.bss', 's', 'sec', '"quoted"', 'a_section_with_a_name_of_quite_some_length_indeed', '.sym', '.str', '.shstr']


def elf_program(r, word):
    """sections, labels and exports; three in four are meant to be accepted"""
    bad = r.random() < .25
    risk = lambda p: bad and r.random() < p
    lines, labels = [], []
    family = ['print_all', 'print', 'all', 'pri', '_all', 'print_all2', 'p', 'l']
    symbols = r.choice([r.sample(SYMBOLS, len(SYMBOLS)), r.sample(family, len(family)) + SYMBOLS[6:], ['l%d' % i for i in range(40)]]) + ['m%d' % i for i in range(90)]
    sections = r.sample(SECTIONS, len(SECTIONS)) if r.random() < .7 else ['sec%d' % i for i in range(20)]
    ready = r.choice([.3, .9])                   # most labels are exported at once, or only some of them
    if r.random() < .15:
        lines.append(data_lines(r, 2))
    late = []
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 4, r.choice([4, 9, 19])])):
        start = r.choice([0, 0, 16, 256, 0x1000, 0xfffffff0, 0x7fffffff] + ([0x100000000, 0xfffffffffffffff0] if word == 64 else []) * (r.random() < .3) + [1 << word] * risk(.2))
        perm = r.choice(['R', 'RW', 'RX', 'RWX', 'RE', 'W', 'X', 'XE', 'RWE']) if not risk(.1) else r.choice(['r', 'N', 'RwX'])
        end = '' if r.random() < .8 or not bad else ' 0x%x' % (start + 31)
        at = ' 0x%x' % start if r.random() < .9 else ''
        lines.append('.section %s %s%s%s' % (sections[i] if not risk(.1) else sections[0], perm, at, end))
        mine = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
            x = r.choice(['label', 'label', 'data', 'export', 'ram', 'org', 'ref'])
            if x == 'label':
                labels.append(symbols[len(labels)])
                mine.append(labels[-1])
                lines.append(labels[-1] + ':')
                if r.random() < ready:
                    lines.append('.export %s' % labels[-1])
                else:
                    late.append(labels[-1])
            elif x == 'data':
                lines.append(data_lines(r, 1))
            elif x == 'export' and risk(.3):
                lines.append('.export %s' % r.choice(labels + ['later', 'never']))
            elif x == 'ram':
                lines.append('.ram %d' % r.randrange(1, 9))
            elif x == 'org' and r.random() < .2:
                lines.append('.org 0x%x' % r.choice([start, start + 64] + [0, 64] * bad))
            elif x == 'ref' and mine:
                lines.append('.dd %s' % r.choice(mine) if start < 0xffff0000 else '.db 1')
    if late and r.random() < .6:
        lines += ['.export ' + l for l in r.sample(late, r.randrange(len(late) + 1))]
    if risk(.4) or not lines:
        lines.append('later: .db 1')
    if risk(.1):
        lines.append('.dd never')
    if r.random() < .1:
        lines.append('.export nowhere_defined')
    return '\n'.join(lines) + '\n'


# ------------------------------------------------------------------------------------------------ C17
def C17(c):
    r = c.rnd
    cases = []
    for tool in ELFS:
        for i in range(c.n(100, 800)):
            n = r.choice([1, 1, 2])
            files = {'s%d.s' % k: elf_program(r, ELFS[tool]['bits']) for k in range(n)}
            if n == 2:
                files['s1.s'] = '\n'.join(l.replace('.section ', '.section b').replace('b"', '"b') for l in files['s1.s'].split('\n') if ':' not in l and not l.startswith(('.export', '.dd')))
            if r.random() < .3:
                files['o'] = b'old'
            cases.append(case(tool, sorted(f for f in files if f != 'o') + ['o'], files, how='process' if r.random() < .04 else 'call'))
    tool_cases(c, 'object tools', cases)
    # every class, byte order, type, machine and alignment, with linker objects that were used before
    cases = []
    for i in range(c.n(500, 4000)):
        k = dict(bits=r.choice([32, 64]), big=r.random() < .5, type=r.choice([1, 1, 1, 3]), machine=r.choice([0, 3, 8, 0x14, 0x3e, 0xf3, 0x1234]), align=r.choice([0, 0, 1, 4, 16, 4096]))
        cfg = config(nt=TEST_NT, big=r.random() < .5)
        warm = [r.choice(['', '.dd nowhere\n']) + elf_program(r, k['bits']) + r.choice(['', '.section far R 0x200\nfaraway: .dd nowhere\n.db faraway\n', '.dd nowhere\n', '.export l0\nl0: .db 1\n']) for _ in range(r.choice([0, 0, 1, 2]))]
        src = elf_program(r, k['bits'])
        if i % 4 == 0:                           # a linker which relocates: it gets every reference to an undefined symbol
            cfg = dict(cfg, undef=True, insts=RICH)
            lines = src.split('\n')
            for _ in range(r.randrange(5)):
                lines.insert(r.randrange(len(lines) + 1), r.choice(['LD %s', '.dd %s+1', 'JR %s', 'BITS %s, %s', '.dw %s, 5, %s', 'BF %s', '.db_to_ascii %s', 'JA %s', 'HI >%s', '.db <%s']).replace('%s', r.choice(['extern', 'other', 'l0', 'm3'])))
            src = '\n'.join(lines)
            warm = [w + r.choice(['', '.section far R 0x200\nfaraway: .dd extern\n.db faraway\n']) for w in warm]
        cases.append(case('class', ['s.s', 'o'], {'s.s': src}, how='class', cfg=cfg, elf=k, warm=warm))
    tool_cases(c, 'linker objects', cases)


# ------------------------------------------------------------------------------------------------ C35
def parted_sections(c):
    """object programs written in several sources: sections, regions and exports go on from one to the next"""
    r = c.rnd
    cases = []
    for i in range(c.n(120, 1200)):
        tool = r.choice(list(ELFS) + ['class'] * 2)
        k = ELFS.get(tool) or dict(bits=r.choice([32, 64]), big=r.random() < .5, type=1, machine=r.choice([3, 8]), align=r.choice([0, 4]))
        lines = elf_program(r, k['bits']).rstrip('\n').split('\n')
        cuts = [0] + sorted(set(r.randrange(1, len(lines) + 1) for _ in range(r.choice([1, 2, 2, 5])))) + [len(lines)]
        files = {'s%02d.s' % n: '\n'.join(lines[a:b]) + '\n' for n, (a, b) in enumerate(zip(cuts, cuts[1:]))}
        args = sorted(files) + ['o']
        if tool == 'class':
            cases.append(case('class', args, files, how='class', cfg=config(nt=TEST_NT, big=r.random() < .5), elf=k, warm=[]))
        else:
            cases.append(case(tool, args, files, how='call'))
    tool_cases(c, 'objects of several sources', cases)


# ------------------------------------------------------------------------------------------------ C20
def nes_tool(c):
    r = c.rnd
    cases = []
    edges = [0, 1, 0x7fe, 0x7ff, 0x800, 0x801, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x2000, 0x4014, 0xc000]
    for i in range(c.n(60, 600)):
        src = ['.cartridge'] if r.random() < .8 else []
        for k in range(r.randrange(7)):
            a = r.choice(edges) if r.random() < .7 else r.randrange(0x10100)
            src += ['.org $%x' % a, '%s: .db %d' % (r.choice(['l%d', 'Start%d', '_x.%d', 'L%d']) % k, r.randrange(256))]
        if r.random() < .15:
            src.append('.dw nowhere')
        files = {'s.s': '\n'.join(src) + '\n'}
        if r.random() < .4:
            files.update({'g.nes': b'old', 'g.nes.0.nl': b'old symbols which are long enough to notice leftovers' * 9, 'g.nes.ram.nl': b'x'})
        cases.append(case('nes', ['s.s', 'g.nes'], files, how='process' if r.random() < .05 else 'call'))
    tool_cases(c, 'tool', cases)


# ------------------------------------------------------------------------------------------------ C22
def C22(c):
    r = c.rnd
    cases = []
    for i in range(c.n(240, 2400)):
        tool = ('gba', 'genesis', 'psx')[i % 3]
        src = []
        size = r.choice({'gba': [191, 192, 250, 400], 'genesis': [512, 514, 600, 1000, 513, 400, 511], 'psx': [1, 100, 2047, 2048, 2049, 4096]}[tool])
        if r.random() < .1:
            size = r.choice([1, 10, 160, 189, 190, 188, 399, 398])
        hexa = '$%x' if tool == 'genesis' else '0x%x'
        if r.random() < .4:
            base = r.choice({'gba': [0x8000000, 0x80000c0, 0x100, 0x2000000], 'genesis': [0x100, 0xff0000, 0x1001], 'psx': [0x80010000, 0x80010100, 0x80000800, 0x10, 0x8001f000]}[tool])
            src.append('.org ' + hexa % base if r.random() < .7 else '.org %s %s' % (hexa % base, hexa % (base + size + r.choice([0, 7, 100, 2047]))))
        src += ['a: .dw a-%s' % (hexa % base) if src else 'a: .dw a'] if r.random() < .5 else []
        if r.random() < .15:
            src.append(r.choice(['.ram %d' % r.choice([1, 100, 2048, 4000]), '.org ' + hexa % r.choice([0, 0x4000]), '.align 256']))
        if r.random() < .3:
            src.append('.fill %d $%x' % (size, r.randrange(256)) if tool == 'genesis' else '.fill %d 0x%x' % (size, r.randrange(256)))
        else:
            while size > 0:
                n = min(size, r.choice([1, 7, 40, 60]))
                src.append('.db ' + ','.join(str(r.choice([0, 255, r.randrange(256)])) for _ in range(n)) if r.random() < .6 else '.fill %d %d' % (n, r.choice([0, 255, 128, 1])))
                size -= n
        if tool == 'genesis' and r.random() < .25 or tool == 'gba' and r.random() < .05:
            # a header like that of a real cartridge: the limits of the rom and of the ram, and texts
            end = r.choice([0x1ff, 0x201, 0x203, 0x20f, 0x21f, 0x23f, 0x201, 0x0, 0xffff, 0x3fffff, 0xffffffff])
            src = ['.org $0', '.dd $fffe00,$200', '.fill $f8', '.db "SEGA GENESIS    "', '.fill $90 32', '.dd 0,$%x,$ff0000,$ffffff' % end, '.fill $50 32', '.dw ' + ','.join(str(r.randrange(65536)) for _ in range(r.choice([2, 3, 30, 100])))] if tool == 'genesis' \
                else ['.dd 0xea00002e', '.fill 156 %d' % r.randrange(256), '.db "TITLE       ABCD01"', '.db 0x96,0,0', '.fill 7', '.db %d,0' % r.randrange(256), '.fill 2', '.fill %d 0x55' % r.choice([1, 100])]
        if r.random() < .2:
            src.append('.db 1')
        if r.random() < .5:     # words and instructions
            src.insert(r.randrange(1, len(src) + 1), r.choice({'gba': ['MOV r0,#5', 'ADD r1,r2,r3', 'LDR r0,[r1,#4]'], 'genesis': ['move.w #$1234,d0', 'nop', 'lea $ff0000,a0'], 'psx': ['lui $t0,0x12345678', 'addiu $t0,$t1,-5', 'jr $ra']}[tool]))
            src.append('.dw %d,%d\n.dd %d' % (r.randrange(65536), r.randrange(65536), r.randrange(1 << 32)))
        if r.random() < .08:
            src.append('.dw nowhere')
        files = {'s.s': '\n'.join(src) + '\n'}
        if r.random() < .3:
            files['o'] = bytes(5000)
        cases.append(case(tool, ['s.s', 'o'], files, how='process' if r.random() < .04 else 'call'))
    tool_cases(c, 'images', cases)
