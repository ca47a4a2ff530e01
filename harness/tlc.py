"""Runs TLC on the specification and collects what it prints."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcError(Exception):
    """TLC itself could not do its job (machinery failure)."""


class TlcViolation(Exception):
    """An invariant or action property of the design does not hold."""


def run(module, cfg, env=None, workers=8, timeout=600, heap='6g', extra=()):
    """Returns (lines printed with the @@ mark, stats)."""
    work = tempfile.mkdtemp(prefix='necro-tlc-')
    try:
        cfgfile = os.path.join(work, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
               'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(work, 'md'),
               '-noGenerateSpecTE', '-config', cfgfile, *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise TlcError('TLC timed out on ' + module)
        out, rest = [], []
        for line in p.stdout.splitlines():
            if line.startswith('"@@'):
                out.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        text = '\n'.join(rest)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        stats = dict(states=int(m.group(2)) if m else 0, transitions=int(m.group(1)) if m else 0)
        if 'No error has been found' not in text:
            tail = '\n'.join(l for l in rest if 'Linting' not in l and 'Semantic' not in l and 'Parsing' not in l)[-4000:]
            if re.search(r'(Invariant|Action property|Temporal properties).*violated', text):
                raise TlcViolation(tail)
            raise TlcError(tail)
        return out, stats
    finally:
        shutil.rmtree(work, ignore_errors=True)
