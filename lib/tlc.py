"""Runs TLC on the modules of /verif/spec in a scratch directory."""
import json, os, re, shutil, subprocess, tempfile, time
import uni

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    partial = None


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.violated = re.findall(r'Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated', out)
        self.ok = rc == 0 and 'Model checking completed. No error' in out
        self.lines = out.split('\n')

    def last_i(self):
        """The case being judged when TLC stopped with an error."""
        m = re.findall(r'^(?:/\\\\ )?i = (\d+)$', self.out, re.M)
        return int(m[-1]) if m else None

    def error_line(self):
        m = re.findall(r'^(?:Error: |The exception was a .*\n: )(.*)$', self.out, re.M)
        return ' / '.join(m)[:300]

    def printed(self, tag):
        """Values printed with PrintT(<<"tag", ToJson(..)>>) or PrintT("tag " \\o ToJson(..))."""
        res = []
        pre = '"' + tag + ' '
        for l in self.lines:
            if l.startswith(pre) and l.endswith('"'):
                res.append(json.loads(json.loads(l, strict=False)[len(tag) + 1:], strict=False))
        return res


def run(module, consts=None, files=None, workers=8, heap='6g', timeout=600, extra=(), cfg=None, simulate=None, keep=None, coverage=False):
    """module: name of a .tla in spec/.  cfg: text of the configuration (default spec/<module>.cfg).
    consts: dict name -> TLA expression, added as CONSTANT assignments.  files: dict file name -> text."""
    d = tempfile.mkdtemp(prefix='vtlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        fs = {'uni.json': json.dumps(uni.tables([]))}
        fs.update(files or {})
        for f, t in fs.items():
            with open(os.path.join(d, f), 'w') as h:
                h.write(t)
        c = cfg if cfg is not None else open(os.path.join(SPEC, module + '.cfg')).read()
        main = module
        if consts:
            main = 'Run' + module
            with open(os.path.join(d, main + '.tla'), 'w') as h:
                h.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (main, module, '\n'.join('c_%s == %s' % kv for kv in consts.items())))
            c += '\nCONSTANTS\n' + '\n'.join('  %s <- c_%s' % (k, k) for k in consts) + '\n'
        with open(os.path.join(d, 'run.cfg'), 'w') as h:
            h.write(c)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8', '-cp', JAR,
               'tlc2.TLC', '-workers', str(workers), '-config', 'run.cfg', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-cleanup']
        if coverage: cmd += ['-coverage', '1']
        if simulate: cmd += ['-simulate', simulate]
        cmd += list(extra) + [main + '.tla']
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            x = TlcError('TLC timed out on %s after %ss' % (module, timeout))
            x.partial = Result((e.stdout or b'').decode('utf-8', 'replace'), 1, timeout)
            raise x
        out = p.stdout.decode('utf-8', 'replace') + p.stderr.decode('utf-8', 'replace')
        if keep:
            open(keep, 'w').write(out)
        return Result(out, p.returncode, time.time() - t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model(module, **kw):
    """A model run that has to succeed (the design satisfies its invariants)."""
    r = run(module, **kw)
    if not r.ok:
        raise TlcError('TLC: %s failed\n%s' % (module, r.out[r.out.find('rror'):][:1500]))
    return r


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, dict): return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)

