"""Builds the code under test (/repo's working tree) together with the harness.

build(variant) -> path of the driver binary
  plain : -O1, everything except main.cc / src/python / tests, linked with the harness drivers
  sched : the same, /repo's sources compiled with -fsanitize=thread instrumentation but linked with
          the harness' own callbacks (harness/control.cc) instead of libtsan
build_cli()    -> path of the gbdt command line binary
build_python() -> directory holding libgbdt.so
Results are cached by a hash of every input (sources of /repo, harness, flags).
"""
import glob, hashlib, os, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
DEFS = ['-DFMT_SHARED', '-DGFLAGS_IS_A_DLL=0', '-DGLOG_CUSTOM_PREFIX_SUPPORT', '-DNDEBUG']
BASE = ['-std=gnu++14', '-O1', '-fPIC', '-w'] + DEFS
LIBS = ['-lprotobuf', '-lgflags', '-lglog', '-lfmt', '-lpthread', '-ldl']


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def _files(pats):
    out = []
    for p in pats:
        out += glob.glob(p, recursive=True)
    return sorted(set(out))


def _hash(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def _lib_sources():
    srcs = _files([REPO + '/src/**/*.cc'])
    return [s for s in srcs if not s.endswith('_test.cc') and not s.endswith('/src/main.cc')
            and '/src/python/' not in s]


def _all_inputs():
    return _files([REPO + '/src/**/*.cc', REPO + '/src/**/*.h', REPO + '/src/proto/*.proto'])


def _compat(dst):
    """Same adaptation of protobuf's status.h as the sandbox's own build."""
    with open('/usr/include/google/protobuf/stubs/status.h') as f:
        s = f.read()
    s = s.replace("  StatusCode code() const { return error_code_; }\n",
                  "  StatusCode code() const { return error_code_; }\n"
                  "  StatusCode error_code() const { return error_code_; }\n"
                  "  static const Status OK;\n")
    codes = "namespace error {\n"
    for c in ("OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument "
              "DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists "
              "PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated "
              "RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition "
              "ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented "
              "INTERNAL=kInternal UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss").split():
        n, k = c.split('=')
        codes += "constexpr StatusCode %s = StatusCode::%s;\n" % (n, k)
    codes += "}  // namespace error\n\n}  // namespace util\n"
    s = s.replace("}  // namespace util\n", codes)
    d = os.path.join(dst, 'compat/google/protobuf/stubs')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'status.h'), 'w') as f:
        f.write(s)


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('b-')]
        ds = [d for d in ds if d not in keep]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-8]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def _compile(work, jobs):
    """jobs: list of (src, obj, flags)"""
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    def one(j):
        try:
            _run(['g++'] + j[2] + ['-c', j[0], '-o', j[1]])
        except BuildError as e:
            # a driver that no longer fits the code costs its own modes only
            if not os.path.basename(j[0]).startswith('drv_'):
                raise
            sys.stderr.write('driver %s left out: %s\n' % (j[0], str(e)[-1500:]))
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 4)) as ex:
        list(ex.map(one, order))


def _prepare(kind, variant, extra_srcs, extra_flags):
    os.makedirs(BUILD, exist_ok=True)
    inputs = _all_inputs() + _files([HARNESS + '/*', HARNESS + '/compat/**/*'])
    inputs = [f for f in inputs if os.path.isfile(f)] + [os.path.abspath(__file__)]
    key = _hash(inputs, (kind, variant, extra_srcs, extra_flags))
    d = os.path.join(BUILD, 'b-%s-%s-%s' % (kind, variant, key))
    return d


def _make(d, srcs_flags, link):
    tmp = d + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, 'gen'))
    try:
        _compat(tmp)
        protos = _files([REPO + '/src/proto/*.proto'])
        _run(['protoc', '-I' + REPO, '--cpp_out=' + os.path.join(tmp, 'gen')] + protos)
        inc = ['-I' + os.path.join(tmp, 'compat'), '-I' + os.path.join(HARNESS, 'compat/include'),
               '-I' + REPO, '-I' + os.path.join(tmp, 'gen'), '-I' + HARNESS]
        jobs = []
        plain = BASE + inc
        for i, p in enumerate(_files([os.path.join(tmp, 'gen/src/proto/*.pb.cc')])):
            jobs.append((p, os.path.join(tmp, 'pb%d.o' % i), plain))
        jobs.append((os.path.join(HARNESS, 'compat/protobuf_status_ok.cc'),
                     os.path.join(tmp, 'status_ok.o'), plain))
        for i, (s, fl) in enumerate(srcs_flags):
            jobs.append((s, os.path.join(tmp, 'o%d.o' % i), BASE + fl + inc))
        _compile(tmp, jobs)
        # instrumented objects first, so that their copies of inline functions win
        jobs = [j for j in jobs if os.path.exists(j[1])]
        link(tmp, sorted((j[1] for j in jobs), key=lambda o: not os.path.basename(o).startswith('o')))
        for j in jobs:
            os.unlink(j[1])
        try:
            os.rename(tmp, d)
        except OSError:      # someone else built the same in the meantime
            if not os.path.isdir(d):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    _prune([d])


def build(variant='plain'):
    if variant == 'py':
        return os.path.join(HARNESS, 'pysession.py')
    if variant == 'cli':
        return os.path.join(HARNESS, 'clisession.py')
    drv = _files([HARNESS + '/drv_*.cc', HARNESS + '/common.cc', HARNESS + '/data.cc', HARNESS + '/control.cc'])
    d = _prepare('drv', variant, drv, None)
    exe = os.path.join(d, 'driver')
    if os.path.exists(exe):
        os.utime(d)
        return exe
    fl = []
    if variant == 'sched':
        fl = ['-fsanitize=thread', '-DVERIF_SCHED=1']
    sf = [(s, fl) for s in _lib_sources()]
    sf += [(s, ['-DVERIF_SCHED=1'] if variant == 'sched' else []) for s in drv]

    def link(tmp, objs):
        _run(['g++', '-o', os.path.join(tmp, 'driver')] + objs + ['-rdynamic'] + LIBS)
    _make(d, sf, link)
    return exe


def build_cli():
    d = _prepare('cli', 'plain', None, None)
    exe = os.path.join(d, 'gbdt')
    if os.path.exists(exe):
        os.utime(d)
        return exe
    sf = [(s, []) for s in _lib_sources() + [REPO + '/src/main.cc']]

    def link(tmp, objs):
        _run(['g++', '-o', os.path.join(tmp, 'gbdt')] + objs + LIBS)
    _make(d, sf, link)
    return exe


def build_python():
    d = _prepare('py', 'plain', None, None)
    so = os.path.join(d, 'libgbdt.so')
    if os.path.exists(so):
        os.utime(d)
        return d
    pyinc = ['-I/usr/include/python3.12', '-fvisibility=hidden', '-Dlibgbdt_EXPORTS']
    sf = [(s, []) for s in _lib_sources()]
    sf += [(s, pyinc) for s in _files([REPO + '/src/python/*.cc'])]

    def link(tmp, objs):
        _run(['g++', '-shared', '-o', os.path.join(tmp, 'libgbdt.so')] + objs + LIBS)
    _make(d, sf, link)
    return d


if __name__ == '__main__':
    t = time.time()
    for a in sys.argv[1:] or ['plain']:
        print({'cli': build_cli, 'py': build_python}.get(a, lambda: build(a))())
    print('%.1fs' % (time.time() - t))
