"""Common machinery of the checks: model exploration, replay, trace validation, verdicts, evidence."""
import hashlib, json, os, random, re, shutil, sys, tempfile, time

import real, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT0 = dict(hexp=['0x'], binp=['0b'], octp=[], decp=[], hexs=[], bins=[], octs=[], decs=[])


def nt(**k):
    d = dict(hexp=[], binp=[], octp=[], decp=[], hexs=[], bins=[], octs=[], decs=[])
    d.update(k)
    return d


def field(**k):
    d = dict(size=1, bits=8, off=0, align=1, rng=[], filt='', rel=[], signed=False, hook='')
    d.update(k)
    return d


def config(**k):
    d = dict(nt=NT0, big=False, fillv=0, cs=False, defines={}, cpu='', files={}, plat='', pre=[], post=[],
             dirty=False, insts={})
    d.update(k)
    return d


CPU_NT = {
    '6502': nt(hexp=['$'], binp=['%'], octp=['@']),
    'lr35902': nt(hexp=['$'], binp=['%'], octp=['@']),
    'z80': nt(hexp=['$'], binp=['%']),
    'thumb': nt(hexp=['0x'], binp=['0b', '0y']),
    'mips32': nt(hexp=['0x'], binp=['0b']),
    'ppc': nt(hexp=['0x']),
    '68000': nt(hexp=['$'], binp=['%']),
    '8086': nt(hexp=['0x', '0h', '$0'], hexs=['h'], decp=['0d'], decs=['d'], binp=['0b', '0y'], bins=['b', 'y'],
               octp=['0o', '0q'], octs=['o', 'q']),
}
CPU_NT['x86'] = CPU_NT['8086']
CPU_BIG = {'mips32': True, 'ppc': True, '68000': True}


def cpu_config(cpu, **k):
    return config(cpu=cpu, nt=CPU_NT[cpu], big=CPU_BIG.get(cpu, False), **k)


# names of the hardware (what they stand for is in Hardware.tla)
PLAT_NAMES = dict(gb='VRAM LCDC STAT SCY SCX LY LYC WY WX TMAP0 TMAP1 WRAM WRAM0 WRAM1 HRAM'.split(),
                  nes='PPUCTRL PPUMASK PPUSTATUS OAMADDR OAMDATA PPUSCROLL PPUADDR PPUDATA OAMDMA'.split(),
                  sms='RAM JOY1 JOY2 PSG VDPDATA VDPADDR CMD_VRAM CMD_REG CMD_CRAM'.split(), psx=[])
PLAT_CPU = dict(gb='lr35902', nes='6502', sms='z80', psx='mips32')


def plat_config(plat, **k):
    d = dict(cpu=PLAT_CPU[plat], plat=plat, nt=CPU_NT[PLAT_CPU[plat]])
    d.update(k)
    return config(**d)


INV = ['RefsInside', 'NoDangling', 'ReadBack', 'RegionFull', 'Final', 'GbChecks', 'Reached']
ACT = ['PLabels', 'PAppend', 'PCounter', 'PLinkLocal', 'PRelink', 'PTiles']
CUT = '~ next source ~'
EQ_CFG = 'SPECIFICATION EqSpec\nINVARIANTS Same Report\nCHECK_DEADLOCK FALSE\n'
GEN_CFG = 'SPECIFICATION GenSpec\nINVARIANTS Report ' + ' '.join(INV) + '\nPROPERTIES ' + ' '.join(ACT) + \
          '\nCHECK_DEADLOCK FALSE\n'
TRACE_CFG = 'SPECIFICATION TraceSpec\nINVARIANTS Report\nCHECK_DEADLOCK FALSE\n'


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.rnd = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.replayed = 0
        self.samples = []
        self.parts = {}
        self.fails = []
        self.known_hits = []
        self.assumptions = []
        try:
            with open(os.path.join(VERIF, 'known_findings.json')) as f:
                self.known = [k for k in json.load(f)['known'] if k['property'] == prop]
        except FileNotFoundError:
            self.known = []

    # ------------------------------------------------------------------ verdicts
    def fail(self, what, case, expected=None, got=None, lines=()):
        key = json.dumps(case, sort_keys=True)
        for k in self.known:
            if (len(lines) == 1 and k['input'] == lines[0]) or k['input'] == what or k['input'] == case or k['input'] in (case if isinstance(case, list) else []) or \
                    (isinstance(case, dict) and k['input'] in (case.get('src'), case.get('form'))):
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        if len(self.fails) < 2000:
            self.fails.append(dict(what=what, case=case, expected=expected, got=got, lines=list(lines), key=hashlib.sha1(key.encode()).hexdigest()[:12]))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def note(self, part, **k):
        d = self.parts.setdefault(part, {})
        for a, b in k.items():
            d[a] = d.get(a, 0) + b if isinstance(b, (int, float)) else b

    # ------------------------------------------------------------------ model -> code
    def tlc(self, module, cfg, env=None, **k):
        try:
            out, st = tlc.run(module, cfg, env=env, **k)
        except tlc.TlcViolation as e:
            # a property of the design itself fails: the specification is inconsistent (machinery failure)
            raise
        self.states += st['states']
        self.transitions += st['transitions']
        return out, st

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def gen(self, part, pieces, cfg, maxlen, minlen=0, loose=False, relink=1, timeout=600, cut=False):
        """Explores all programs over pieces in the model and replays every behaviour in the real code."""
        model = dict(cfg=cfg, pieces=pieces, maxlen=maxlen, minlen=minlen, links=relink, cut=cut)
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump(model, f)
        try:
            out, st = self.tlc('Gen', GEN_CFG, env={'MODEL': f.name}, timeout=timeout)
        finally:
            os.unlink(f.name)
        cases = []
        for o in out:
            src = '\n'.join(pieces[i - 1] if i else CUT for i in o['p'])
            cases.append((cfg, src, o, loose, relink))
        bad = real.parallel(_replay_gen, cases)
        n = 0
        for (c, src, o, *_), b in zip(cases, bad):
            n += 1
            if b:
                self.fail(part + ':' + b[0], dict(src=src, cfg=c), b[1], b[2])
        self.replayed += n
        self.traces += n
        if cases:
            for c in (cases[len(cases) // 2], cases[-1]):
                self.sample(dict(part=part, program=c[1], predicted=dict(err=c[2]['err'], bytes=c[2]['bytes'][:24])))
        self.note(part, states=st['states'], programs_replayed=n,
                  rejected=sum(1 for o in out if o['err']), linked_ok=sum(1 for o in out if not o['err']))
        if n < 1:
            raise tlc.TlcError('no behaviour generated for ' + part)

    # ------------------------------------------------------------------ code -> model
    def trace(self, part, cases, timeout=800, obs=None):
        """Runs the cases in the real code and validates the recorded behaviour with the model."""
        obs = obs or real.record(cases)
        data = dict(cfgs=[], cases=[])
        index = {}
        for c, o in zip(cases, obs):
            ops = []
            for op, g in zip(c['ops'], o):
                ops.append(dict(op, got=g if c.get('msg') else {k: v for k, v in g.items() if k != 'msg'}))
            key = json.dumps(c['cfg'], sort_keys=True)
            if key not in index:
                data['cfgs'].append(c['cfg'])
                index[key] = len(data['cfgs'])
            data['cases'].append(dict(cfg=index[key], ops=ops, loose=c.get('loose', False), keep=c.get('keep', False)))
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump(data, f)
        try:
            out, st = self.tlc('Trace', TRACE_CFG, env={'CASES': f.name}, timeout=timeout)
        finally:
            os.unlink(f.name)
        verdicts = {o['c']: o for o in out}
        if set(verdicts) != set(range(1, len(cases) + 1)):
            raise tlc.TlcError('missing verdicts: %d of %d' % (len(verdicts), len(cases)))
        okerr = 0
        for i, c in enumerate(cases, 1):
            v = verdicts[i]
            last = obs[i - 1][-1] if obs[i - 1] else {}
            okerr += bool(last.get('err'))
            if v['v'] != 'ok':
                n = v['n'] - 1
                g = obs[i - 1][n] if n < len(obs[i - 1]) else None
                self.fail(part + ':' + v['v'], dict(src=c['ops'][n].get('src') or c['ops'][0].get('src', ''), ops=c['ops'], cfg=c['cfg']), v['got'], g, c.get('lines', []))
        self.traces += len(cases)
        self.note(part, states=st['states'], traces=len(cases), rejected_runs=okerr)
        if cases:
            self.sample(dict(part=part, ops=cases[0]['ops'][:2]))

    def interleaved(self, part, cases, group=4, schedule='random'):
        """Runs groups of cases step by step in the same process; every instance must behave as if it were alone."""
        groups = [cases[i:i + group] for i in range(0, len(cases), group)]
        items = []
        for g in groups:
            todo = [i for i, c in enumerate(g) for _ in c['ops']]
            if schedule == 'random':
                self.rnd.shuffle(todo)
            items.append((g, todo, [self.rnd.random() < .5 for _ in g] if schedule == 'random' else [k % 2 == 1 for k in range(len(g))]))
        obs = [o for g in real.parallel(_run_group, items) for o in g]
        self.trace(part, cases, obs=obs)

    def equiv(self, part, pairs, fields=('bytes', 'pc', 'labels'), timeout=800):
        """Both programs of every pair mean the same: proved on the model for each pair, then compared in the code."""
        data, index = dict(cfgs=[], pairs=[], fields=list(fields)), {}
        for a, b in pairs:
            sides = []
            for s in (a, b):
                key = json.dumps(s['cfg'], sort_keys=True)
                if key not in index:
                    data['cfgs'].append(s['cfg'])
                    index[key] = len(data['cfgs'])
                sides.append(dict(cfg=index[key], ops=[o for o in s['ops'] if o['op'] in ('asm', 'file', 'link')]))
            data['pairs'].append(sides)
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
            json.dump(data, f)
        try:
            out, st = self.tlc('Equiv', EQ_CFG, env={'CASES': f.name}, timeout=timeout)
        finally:
            os.unlink(f.name)
        if len(out) != len(pairs):
            raise tlc.TlcError('missing pairs: %d of %d' % (len(out), len(pairs)))
        obs = real.record([s for p in pairs for s in p])
        ok = 0
        for i, (a, b) in enumerate(pairs):
            va, vb = (final_view(s, o, fields) for s, o in ((a, obs[2 * i]), (b, obs[2 * i + 1])))
            ok += va['ok']
            if va != vb:
                self.fail(part, dict(src=b['ops'][0].get('src', b['ops'][0].get('name')), ops=[a['ops'], b['ops']], cfg=a['cfg']), va, vb)
        self.traces += 2 * len(pairs)
        self.note(part, states=st['states'], pairs=len(pairs), accepted_pairs=ok)
        if pairs:
            self.sample(dict(part=part, one=pairs[0][0]['ops'][:1], other=pairs[0][1]['ops'][:1]))

    def compare(self, part, case, expected, got):
        self.replayed += 1
        if expected != got:
            self.fail(part, case, expected, got)

    # ------------------------------------------------------------------ end
    def finish(self, level='model_checking', extra=None):
        wall = time.time() - self.t0
        rep = None
        if self.fails:
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, '%s-%s.json' % (self.prop, self.fails[0]['key']))
            with open(rep, 'w') as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, total=len(self.fails),
                               failures=self.fails[:20]), f, indent=1, default=str)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples, parts=self.parts)
        if extra:
            cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.fails))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        print('%s tier=%s seed=%d states=%d traces=%d wall=%.1fs' % (self.prop, self.tier, self.seed, self.states, self.traces, wall))
        if self.fails:
            for x in self.fails[:int(os.environ.get('VERIF_SHOW', 5))]:
                print('  %s\n    case %s\n    expected %s\n    got %s' % (
                    x['what'], json.dumps(x['case'].get('src', x['case']) if isinstance(x['case'], dict) else x['case'])[:400],
                    str(x['expected'])[:300], str(x['got'])[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        return 0


def err_agree(model, code, loose=False):
    return model == code or (model == 'Raw' and code != '' and code != 'TIMEOUT') or \
        (loose and model != '' and code not in ('', 'TIMEOUT'))


def final_view(side, obs, fields):
    v = dict(ok=not obs[-1]['err'])
    if v['ok']:
        ops = side['ops']
        for op, o in zip(ops, obs):
            if op['op'] == 'link' and 'bytes' in fields:
                v['bytes'] = o['bytes']
            elif op['op'] in ('asm', 'file') and 'pc' in fields:
                v['pc'] = o['pc']
            elif op['op'] == 'addr' and 'labels' in fields:
                v[op['name']] = o['v'] if o['known'] else o['err']
    return v


def _run_group(item):
    group, todo, early = item
    ss = [real.Session(c['cfg']) if e else None for c, e in zip(group, early)]
    obs = [[] for _ in group]
    for i in todo:
        if ss[i] is None:
            ss[i] = real.Session(group[i]['cfg'])
        if not ss[i].dead:
            obs[i].append(ss[i].step(group[i]['ops'][len(obs[i])]))
            if obs[i][-1]['err'] and group[i]['ops'][len(obs[i]) - 1]['op'] in ('asm', 'file', 'link'):
                ss[i].dead = True
    return obs


def _replay_gen(item):
    """None if the real code shows the predicted projection, else (clause, expected, got)."""
    cfg, src, o, loose, links = item
    ops = [dict(op='asm', src=s, file='') for s in re.split('\n%s\n?' % CUT, src)]
    more = len(ops) - 1
    names = [l[0] for l in o['labels']]
    if o['linked']:
        ops += [dict(op='addr', name=n) for n in names] + [dict(op='bytes')] + [dict(op='link')] * links
    r = real.run_ops(cfg, ops)
    while more and not r[0]['err'] and len(r) > 1:
        del r[0]
        more -= 1
    a = r[0]
    want = o['err'] if not o['linked'] else ''
    if not err_agree(want, a['err'], loose):
        return ('error', want, a['err'] + ' ' + a['msg'])
    if want:
        return None
    for k, e, g in (('probes', o['obs'], a['obs']), ('pc', o['pc'], a['pc']), ('length', len(o['ub']), a['len'])):
        if e != g:
            return (k, e, g)
    for (n, v), g in zip(o['labels'], r[1:]):
        if g['err'] or not g['known'] or g['v'] != v:
            return ('label ' + n, v, g)
    if r[1 + len(names)]['bytes'] != o['ub']:
        return ('unlinked bytes', o['ub'], r[1 + len(names)]['bytes'])
    l = r[-1]
    if not err_agree(o['err'], l['err'], loose):
        return ('linkerror', o['err'], l['err'] + ' ' + l['msg'])
    if not o['err'] and l['bytes'] != o['bytes']:
        return ('bytes', o['bytes'], l['bytes'])
    if not o['err'] and l['calls'] != o['calls']:
        return ('passes', o['calls'], l['calls'])
    return None
