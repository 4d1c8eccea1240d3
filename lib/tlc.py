"""Running TLC."""
import os, re, shutil, subprocess, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0
        self.rejects = []
        for x in re.findall(r'^"REJECT (\d+) (.*)"$', out, re.M):
            self.rejects.append((int(x[0]), x[1].replace('\\"', '"')))
        self.printed = out


def brief(out):
    l = [x for x in out.splitlines() if x.strip() and not x.startswith(('Parsing file', 'Semantic processing', 'Running ', 'TLC2 '))]
    return '\n'.join(l)[-2500:]


def run(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap='2g', jprops=(), trace=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.  Raises TLCError when TLC itself fails
    (parse error, evaluation error, timeout); a property violation is returned as rc != 0."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=os.environ.get('VERIF_WORK', '/tmp'))
    try:
        cmd = ['java', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC',
               '-XX:TieredStopAtLevel=1' if workers == 1 and timeout <= 60 else '-XX:+TieredCompilation',
               '-Xss64m', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap] + ['-D' + j for j in jprops] + \
              ['-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers),
               '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC timeout: ' + module)
        out = p.stdout.decode('utf-8', 'replace')
        r = Result(out, p.returncode, time.time() - t)
        # 10 assumption, 11 deadlock, 12 safety, 13 liveness violation
        if trace and p.returncode == 75 and r.generated:
            # the observed values do not even fit the specification's types: the event is not explained
            msg = [x for x in out.splitlines() if x.startswith(('Error:', 'Attempted', 'The exception', ': '))][:4]
            r.rejects.append((r.distinct, 'not a value the specification can explain: ' + ' '.join(msg)[:300]))
            return r
        if p.returncode not in (0, 10, 11, 12, 13):
            raise TLCError('TLC exit %d on %s\n%s' % (p.returncode, module, brief(out)))
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)
