"""Drives the real assembler of /repo through its public interface and records what it does."""
import contextlib, importlib, io, json, multiprocessing, os, resource, shutil, signal, sys, tempfile

REPO = os.environ.get('NECRO_REPO', '/repo')
sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.gettempdir() + '/necro-nopyc-%d' % os.getpid()   # never read stale bytecode
sys.path.insert(0, REPO)


def big(v):
    v = int(v)
    a, m = abs(v), []
    while a:
        m.append(a & 255)
        a >>= 8
    return {'n': v < 0, 'm': m}


def unbig(b):
    v = 0
    for d in reversed(b['m']):
        v = v * 256 + d
    return -v if b['n'] else v


CPUS = {
    '6502': ('necroassembler.cpu.mos6502', 'AssemblerMOS6502'),
    'z80': ('necroassembler.cpu.z80', 'AssemblerZ80'),
    'lr35902': ('necroassembler.cpu.lr35902', 'AssemblerLR35902'),
    'mips32': ('necroassembler.cpu.mips32', 'AssemblerMIPS32'),
    'thumb': ('necroassembler.cpu.thumb', 'AssemblerThumb'),
    '68000': ('necroassembler.cpu.mc68000', 'AssemblerMC68000'),
    '8086': ('necroassembler.cpu.intel8086', 'AssemblerIntel8086'),
    'ppc': ('necroassembler.cpu.powerpc', 'AssemblerPowerPC'),
    'x86': ('necroassembler.cpu.x86', 'AssemblerX86'),
    'gb': ('necroassembler.platforms.gameboy', 'AssemblerGameboy'),
    'nes': ('necroassembler.platforms.nes', 'AssemblerNES'),
    'sms': ('necroassembler.platforms.sms', 'AssemblerSegaMasterSystem'),
    'psx': ('necroassembler.platforms.psx', 'AssemberPSX'),
}
FILTERS = {'': None, 'shr1': lambda x: x >> 1, 'shr2': lambda x: x >> 2, 'shr8': lambda x: x >> 8,
           'neg': lambda x: -x, 'inc': lambda x: x + 1, 'and16': lambda x: x & 0xFFFF, 'shr16': lambda x: x >> 16}
_classes = {}


def _probe_mixin(base):
    from necroassembler import directive

    class Probed(base):
        @directive('probe')
        def _verif_probe(self, instr):
            if not hasattr(self, 'verif_obs'):
                self.verif_obs = []
            self.verif_obs.append([self.pc, len(self.assembled_bytes)])
    Probed.__name__ = base.__name__
    return Probed


def cpu_class(name):
    if name not in _classes:
        mod, cls = CPUS[name]
        _classes[name] = _probe_mixin(getattr(importlib.import_module(mod), cls))
    return _classes[name]


def _field_op(desc):
    pre, fields = desc['b'], desc['f']

    def op(self, instr):
        if len(instr.tokens) != 1 + len(fields):
            return None
        blob = bytearray(pre)
        for tok, f in zip(instr.tokens[1:], fields):
            kw = {}
            if f['filt']:
                kw['filter'] = FILTERS[f['filt']]
            if f['rng']:
                kw['bits'] = tuple(f['rng'])
            if f['rel']:
                kw['relative'] = self.pc + f['rel'][0]
            v = self.parse_integer_or_label(label=tok, size=f['size'], bits_size=f['bits'], offset=f['off'],
                                            alignment=f['align'], signed=f['signed'], **kw)
            if f['rng']:
                hi, lo = f['rng']
                v = (v & ((1 << (hi - lo + 1)) - 1)) << lo
            v &= (1 << (8 * f['size'])) - 1
            for i, b in enumerate(v.to_bytes(f['size'], 'big' if self.big_endian else 'little')):
                blob[f['off'] + i] |= b
        return bytes(blob)
    return op


def _note(asm, name):
    if not hasattr(asm, 'verif_calls'):
        asm.verif_calls = []
    asm.verif_calls.append([name, len(asm.assembled_bytes), list(asm.assembled_bytes)])


class Passes:
    """link passes which are not methods of the assembler"""

    def __init__(self, name='', style=0):
        self.name = name

    def go(self, asm):
        _note(asm, self.name)

    __call__ = go


class OtherPasses(Passes):
    def __eq__(self, other):
        return isinstance(other, OtherPasses)

    __hash__ = None


def _plain(n):
    import functools
    k = sum(map(ord, n)) % 5
    return [lambda a: _note(a, n), Passes(n).go, Passes(n), functools.partial(Passes(n).go), OtherPasses(n).go][k]


def _passes(cfg):
    from necroassembler import pre_link, post_link
    out = {}
    for names, deco in ((cfg['pre'], pre_link), (cfg['post'], post_link)):
        for n in names:
            if n.startswith('m_'):
                out[n] = deco(lambda self, n=n: _note(self, n))
    return out


def _custom_class(cfg):
    from necroassembler import Assembler
    from necroassembler.exceptions import UnknownRegister
    nt = cfg['nt']
    base = _probe_mixin(Assembler)

    class TestCpu(base):
        locals().update(_passes(cfg))
        hex_prefixes, bin_prefixes = tuple(nt['hexp']), tuple(nt['binp'])
        oct_prefixes, dec_prefixes = tuple(nt['octp']), tuple(nt['decp'])
        hex_suffixes, bin_suffixes = tuple(nt['hexs']), tuple(nt['bins'])
        oct_suffixes, dec_suffixes = tuple(nt['octs']), tuple(nt['decs'])
        big_endian = cfg['big']
        fill_value = cfg['fillv']
        case_sensitive = cfg['cs']
        defines = dict(cfg['defines'])

        def register_instructions(self):
            for name, d in cfg['insts'].items():
                if d['t'] == 'const':
                    self.register_instruction(name, bytes(d['b']))
                elif d['t'] == 'field':
                    self.register_instruction(name, _field_op(d).__get__(self))
                elif d['t'] == 'none':
                    self.register_instruction(name, lambda instr: None)
                elif d['t'] == 'boom':
                    def boom(instr):
                        raise ValueError('boom')
                    self.register_instruction(name, boom)
                elif d['t'] == 'raise':
                    def rai(instr):
                        raise UnknownRegister()
                    self.register_instruction(name, rai)
    return TestCpu


def make_class(cfg):
    if cfg['plat']:
        return cpu_class(cfg['plat'])
    if cfg['cpu']:
        return cpu_class(cfg['cpu'])
    key = json.dumps([cfg[k] for k in ('nt', 'big', 'fillv', 'cs', 'defines', 'insts', 'pre', 'post')], sort_keys=True)
    if key not in _classes:
        if len(_classes) > 200:
            for k in [k for k in _classes if k not in CPUS]:
                del _classes[k]
        _classes[key] = _custom_class(cfg)
    return _classes[key]


class FakeImage:
    """Stands in for PIL (not installed): an indexed image read from the description written by write_files."""

    def __init__(self, d):
        self.mode, self.size, self.px = d['mode'], (d['w'], d['h']), d['px']
        self.width, self.height = self.size

    def getpixel(self, xy):
        x, y = xy
        if not (0 <= x < self.width and 0 <= y < self.height):
            raise IndexError('image index out of range')
        return self.px[y * self.width + x]

    __getitem__ = getpixel

    def getdata(self, band=None):
        return list(self.px)

    get_flattened_data = getdata

    def tobytes(self):
        return bytes(self.px)

    def load(self):
        return self

    def crop(self, box):
        a, b, c, d = box
        return FakeImage(dict(mode=self.mode, w=c - a, h=d - b, px=[self.getpixel((x, y)) for y in range(b, d) for x in range(a, c)]))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def _fake_open(name, *_):
    with open(name) as f:
        return FakeImage(json.load(f))


def install_fake_pil():
    import types
    pil, img = types.ModuleType('PIL'), types.ModuleType('PIL.Image')
    pil.Image, img.open, img.Image = img, _fake_open, FakeImage
    sys.modules['PIL'], sys.modules['PIL.Image'] = pil, img


install_fake_pil()


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def err_name(exc):
    if isinstance(exc, Timeout):
        return 'TIMEOUT'
    from necroassembler.exceptions import AssemblerException
    if isinstance(exc, AssemblerException):
        return type(exc).__name__
    return 'Raw'


def write_files(files):
    for name, f in files.items():
        d = os.path.dirname(name)
        if d:
            os.makedirs(d, exist_ok=True)
        if f['t'] == 'text':
            with open(name, 'w', newline='') as h:
                h.write(f['src'])
        elif f['t'] == 'image':
            with open(name, 'w') as h:
                json.dump(f, h)
        elif f['t'] == 'bin':
            with open(name, 'wb') as h:
                h.write(bytes(f['bytes']))
        elif f['t'] == 'vals':
            with open(name, 'w', newline='') as h:
                h.write(f['raw'])


def clear_files(files):
    for name in files:
        with contextlib.suppress(OSError):
            os.unlink(name)


_hung = 0        # calls of this process which did not come back


def guarded(fn):
    """Runs fn; returns (error name, message, value)."""
    global _hung
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20 if _hung < 2 else 4 if _hung < 6 else 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            v = fn()
        return '', '', v
    except Timeout as e:
        _hung += 1
        return 'TIMEOUT', '', None
    except Exception as e:
        return err_name(e), str(e), None
    except (SystemExit, RecursionError, MemoryError) as e:
        return 'Raw', str(e), None
    finally:
        signal.alarm(0)


def lex(op):
    from necroassembler.tokenizer import Tokenizer
    from necroassembler.statements import Label, Directive, Instruction
    kinds = {Label: 'label', Directive: 'dir', Instruction: 'ins'}

    def run():
        t = Tokenizer(context=op['file'] or None)
        t.parse(op['src'])
        return [dict(k=kinds[type(s)], toks=list(s.tokens), line=s.line, file=s.context or '') for s in t.statements]
    e, msg, v = guarded(run)
    return dict(err=e, msg=msg, stmts=v or [])


class Session:
    """One instance of the assembler under observation."""

    def __init__(self, cfg):
        self.dead = False
        self.cfg = cfg
        self.e, self.msg, self.asm = guarded(lambda: make_class(cfg)())
        if not self.e:
            for names, passes in ((cfg['pre'], self.asm.pre_link_passes), (cfg['post'], self.asm.post_link_passes)):
                passes += [_plain(n) for n in names if n.startswith('f_')]

    def step(self, op):
        k = op['op']
        if k == 'lex':
            return lex(op)
        if self.e:
            return dict(err='Raw', msg='constructor: ' + self.msg, pc=big(0), len=0, obs=[])
        asm = self.asm
        if k in ('asm', 'file'):
            if k == 'asm':
                e, msg, _ = guarded(lambda: asm.assemble(op['src'], op['file'] or None))
            else:
                e, msg, _ = guarded(lambda: asm.assemble_file(op['name']))
            return dict(err=e, msg=msg, pc=big(asm.pc), len=len(asm.assembled_bytes),
                        obs=[[big(p), n] for p, n in getattr(asm, 'verif_obs', [])])
        if k == 'link':
            e, msg, _ = guarded(lambda: asm.link())
            return dict(err=e, msg=msg, bytes=list(asm.assembled_bytes), calls=list(getattr(asm, 'verif_calls', [])))
        if k == 'build':
            e, msg, _ = guarded(lambda: asm.assemble(op['src'], op['file'] or None))
            if not e:
                e, msg, _ = guarded(lambda: asm.link())
            return dict(err=e, msg=msg, bytes=list(asm.assembled_bytes))
        if k == 'main':
            return self.main(op)
        if k == 'bytes':
            return dict(err='', msg='', bytes=list(asm.assembled_bytes))
        if k == 'addr':
            e, msg, v = guarded(lambda: asm.get_label_absolute_address_by_name(op['name']))
            return dict(err=e, msg=msg, known=v is not None, v=big(v or 0))
        if k == 'int':
            e, msg, v = guarded(lambda: asm.parse_integer(op['tok'], op['bits'], op['signed']))
            return dict(err=e, msg=msg, known=v is not None, v=big(v or 0))
        raise KeyError(k)


    def main(self, op):
        """the command line entry of the class, given the passes which are not its own"""
        made, dest, argv = [], 'main.out', sys.argv

        class Main(make_class(self.cfg)):
            def __init__(self):
                super().__init__()
                made.append(self)
        given = [[_plain(n) for n in self.cfg[k] if n.startswith('f_')] for k in ('pre', 'post')]
        kw = {k: v for k, v in zip(('pre_link_passes', 'post_link_passes'), given) if v}
        try:
            sys.argv = ['tool'] + op['names'] + [dest]
            e, msg, _ = guarded(lambda: Main.main(**kw))
            with contextlib.suppress(OSError), open(dest, 'rb') as f:
                return dict(err=e, msg=msg, bytes=list(f.read()), calls=list(getattr(made[-1], 'verif_calls', [])))
            return dict(err=e or 'Raw', msg=msg, bytes=[], calls=[])
        finally:
            sys.argv = argv
            clear_files([dest])


def run_ops(cfg, ops, keep=False):
    """Executes the interface calls; returns one observation per executed call."""
    out = []
    write_files(cfg['files'])
    try:
        s = Session(cfg)
        for op in ops:
            out.append(s.step(op))
            if out[-1]['err'] and op['op'] in ('asm', 'file', 'link', 'build', 'main') and not (keep and op['op'] != 'link'):
                break
        return out
    finally:
        clear_files(cfg['files'])


# ---------------------------------------------------------------- parallel execution in scratch directories
def _init(root):
    os.chdir(tempfile.mkdtemp(prefix='w-', dir=root))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))


def parallel(fn, items, procs=8, chunk=None):
    """Maps fn over items in worker processes that live in a scratch directory."""
    if not items:
        return []
    root = tempfile.mkdtemp(prefix='necro-real-')
    try:
        chunk = chunk or max(1, min(200, len(items) // (procs * 4) + 1))
        with multiprocessing.get_context('fork').Pool(procs, _init, (root,)) as pool:
            return pool.map(fn, items, chunk)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run_case(case):
    return run_ops(case['cfg'], case['ops'], case.get('keep', False))


def record(cases):
    return parallel(_run_case, cases)
