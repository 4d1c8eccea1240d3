"""Common machinery of all checks: drive the real code, validate its traces with TLC, keep evidence."""
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import gbuild, tlc

VERIF = gbuild.VERIF
NPROC = max(2, min(8, os.cpu_count() or 4))


class Machinery(Exception):
    """The check itself failed: exit 2, never a VIOLATION."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.t0 = time.time()
        self.thorough = tier == 'thorough'
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.detail = {}
        self.violations = []
        self.known = [k for k in load_known() if k.get('property') == prop]
        self.known_hit = []
        os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, 'work'))
        os.environ['VERIF_WORK'] = self.work
        os.environ['VERIF_SCRATCH'] = self.work

    # ---------------------------------------------------------------- scale
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- design check
    def model(self, module, cfg=None, workers=4, timeout=600, args=(), expect_ok=True, heap='4g', env=None):
        r = tlc.run(module, cfg, workers=workers, timeout=timeout, args=args, heap=heap, env=env)
        if expect_ok and not r.ok:
            raise Machinery('the specification itself does not hold: %s %s\n%s' % (module, cfg, tlc.brief(r.out)))
        self.states += r.distinct
        self.transitions += r.generated
        self.detail.setdefault('design', []).append(
            {'module': module, 'cfg': cfg or module + '.cfg', 'distinct_states': r.distinct,
             'states_generated': r.generated, 'depth': r.depth, 'wall_s': round(r.wall, 1)})
        return r

    def generate(self, module, cfg=None, timeout=300, env=None):
        """TLC evaluates the generator module, which serialises stimuli into $GEN."""
        path = os.path.join(self.work, 'gen-%s-%s.ndjson' % (module, hashlib.md5(repr((cfg, env)).encode()).hexdigest()[:6]))
        e = {'GEN': path}
        e.update(env or {})
        r = tlc.run(module, cfg, env=e, timeout=timeout)
        if not r.ok or not os.path.exists(path):
            raise Machinery('generator %s failed\n%s' % (module, tlc.brief(r.out)))
        with open(path) as f:
            out = [json.loads(l) for l in f if l.strip()]
        self.states += r.distinct
        self.transitions += r.generated
        self.detail.setdefault('generated_by_tlc', []).append({'module': module, 'stimuli': len(out)})
        return out

    def histories(self, module, cfg=None, timeout=300):
        """Histories printed by a generator module, one per transition of the state graph."""
        r = tlc.run(module, cfg, timeout=timeout)
        if not r.ok:
            raise Machinery(tlc.brief(r.out))
        self.states += r.distinct
        self.transitions += r.generated
        out = [json.loads(json.loads(l)[5:]) for l in r.out.splitlines() if l.startswith('"HIST ')]
        self.detail['transition_cover_' + module] = len(out)
        return out

    # ---------------------------------------------------------------- implementation
    def drive(self, mode, cases, variant='plain', chunks=None, case_seconds=20, env=None):
        """Runs the cases on the real code.  Returns a list (one per case) of event lists."""
        exe = gbuild.build(variant)
        pylib = {}
        if variant == 'py':    # the package through its Python interface; freed memory is overwritten
            pylib = {'VERIF_PYLIB': gbuild.build_python(), 'VERIF_REPO': gbuild.REPO, 'MALLOC_PERTURB_': '85'}
        if variant == 'cli':
            pylib = {'VERIF_CLI': gbuild.build_cli()}
        k = chunks or min(NPROC, max(1, len(cases) // 4))
        idx = [list(range(i, len(cases), k)) for i in range(k)]
        res = [None] * len(cases)

        def one(ci):
            ids = idx[ci]
            base = os.path.join(self.work, 'd%d-%d' % (ci, int(time.time() * 1e6) % 10 ** 9))
            with open(base + '.in', 'w') as f:
                for i in ids:
                    f.write(json.dumps(cases[i]) + '\n')
            start = 0
            out = base + '.out'
            open(out, 'w').close()
            e = dict(os.environ)
            e['VERIF_CASE_SECONDS'] = str(case_seconds)
            e.update(pylib)
            e.update(env or {})
            crashes = 0
            while start < len(ids):
                with open(base + '.err', 'ab') as err:
                    p = subprocess.run([exe, mode, base + '.in', out, str(start)], env=e,
                                       stdout=subprocess.DEVNULL, stderr=err)
                if p.returncode == 0:
                    break
                if p.returncode in (2, 3, 4, 5):
                    raise Machinery('driver %s exit %d: %s' % (mode, p.returncode,
                                                               open(base + '.err', errors='replace').read()[-1500:]))
                last = start - 1
                with open(out, errors='replace') as f:
                    for l in f:
                        try:
                            last = max(last, json.loads(l)['c'])
                        except ValueError:
                            pass
                if p.returncode not in (98, 99):   # ended without our handler: record it
                    last += 1
                    with open(out, 'a') as f:
                        f.write('\n' + json.dumps({'c': last, 'e': 'Crash', 'exit': p.returncode}) + '\n')
                start = last + 1
                crashes += 5 if p.returncode == 98 else 1      # those who hang have cost time
                if crashes >= 25:      # enough evidence; the rest is not run
                    for j in range(start, len(ids)):
                        res[ids[j]] = []
                    break
            with open(out, errors='replace') as f:
                for l in f:
                    l = l.strip()
                    if not l:
                        continue
                    try:
                        ev = json.loads(l)
                        i = ids[ev['c']]
                    except (ValueError, KeyError, TypeError, IndexError):
                        if crashes:    # what a corrupted process wrote
                            continue
                        raise Machinery('driver %s wrote %r' % (mode, l[:300]))
                    ev['c'] = i
                    if res[i] is None:
                        res[i] = []
                    res[i].append(ev)
            for s in ('.in', '.out', '.err'):
                os.unlink(base + s)
        with ThreadPoolExecutor(k) as ex:
            list(ex.map(one, range(k)))
        return [r if r is not None else [] for r in res]

    # ---------------------------------------------------------------- conformance
    def validate(self, module, evs, cfg=None, env=None, chunks=None, timeout=850):
        """evs: list of event lists, one per case. Returns list of (case index, event index, reason)."""
        live = [i for i, e in enumerate(evs) if e]
        if not live:
            return []
        k = chunks or min(NPROC, max(1, sum(len(evs[i]) for i in live) // 150))
        # balance by number of bytes
        parts = [[] for _ in range(k)]
        w = [0] * k
        for i in sorted(live, key=lambda i: -len(evs[i])):
            j = w.index(min(w))
            parts[j].append(i)
            w[j] += len(json.dumps(evs[i]))
        bad = []

        def one(j):
            todo = sorted(parts[j])
            out = []
            while todo:
                path = os.path.join(self.work, 't%d.ndjson' % j)
                pos = []
                with open(path, 'w') as f:
                    for i in todo:
                        for q, ev in enumerate(evs[i]):
                            f.write(json.dumps(ev) + '\n')
                            pos.append((i, q))
                e = {'TRACE': path}
                e.update(env or {})
                r = tlc.run(module, cfg, env=e, timeout=timeout, workers=1, heap='3g', trace=True)
                out_stats.append((r.distinct, r.generated))
                if r.ok and not r.rejects:
                    break
                if not r.rejects:
                    raise Machinery('TLC rejected without position: %s\n%s' % (module, tlc.brief(r.out)))
                for l, why in r.rejects:
                    i, q = pos[min(l, len(pos)) - 1]
                    out.append((i, q, why))
                if r.ok or 'ALLREJECTS' in r.out:   # the spec went on after every rejection
                    break
                last = max(pos[min(l, len(pos)) - 1][0] for l, _ in r.rejects)
                todo = [i for i in todo if i > last]
                if len(out) > 5:
                    break
            return out
        out_stats = []
        with ThreadPoolExecutor(k) as ex:
            for o in ex.map(one, range(k)):
                bad += o
        self.states += sum(s[0] for s in out_stats)
        self.transitions += sum(s[1] for s in out_stats)
        self.traces += len(live)
        self.events += sum(len(evs[i]) for i in live)
        return sorted(set(bad))

    def interpret(self, post, case, evs):
        """post, with recorded values that make no sense turned into an event no specification accepts."""
        keep = json.dumps(evs)
        try:
            return post(case, evs)
        except (ValueError, TypeError, KeyError, IndexError, OverflowError, ArithmeticError) as ex:
            evs = json.loads(keep)
            if not evs:
                return evs
            return [{'e': 'Senseless', 'why': '%s: %s' % (type(ex).__name__, ex)}]

    def conform(self, mode, module, cases, variant='plain', cfg=None, env=None, label=None,
                case_seconds=20, post=None, drv_env=None, confirm_tries=2):
        """drive + validate + confirm + report."""
        if len(self.violations) >= self.n(1, 3):     # enough has been shown
            return []
        t = time.time()
        evs = self.drive(mode, cases, variant, case_seconds=case_seconds, env=drv_env)
        if post:
            evs = [self.interpret(post, cases[i], e) for i, e in enumerate(evs)]
        td = time.time() - t
        if not all(evs) and not any(x and x[-1].get('e') in ('Crash', 'Hang', 'Deadlock') for x in evs):
            raise Machinery('case %d of %s produced no event' % (evs.index([]), mode))
        bad = self.validate(module, evs, cfg, env)
        self.detail.setdefault('conformance', []).append(
            {'label': label or mode, 'mode': mode, 'module': module, 'variant': variant, 'cases': len(cases),
             'events': sum(map(len, evs)), 'drive_s': round(td, 1), 'validate_s': round(time.time() - t - td, 1)})
        if len(self.samples) < 6 and cases:
            j = self.rng.randrange(len(cases))
            self.samples.append({'label': label or mode, 'stimulus': shorten(cases[j]), 'trace': shorten(evs[j][:6])})
        seen = set()
        for i, q, why in bad:
            if i in seen:
                continue
            seen.add(i)
            if len(self.violations) >= self.n(1, 3):
                break
            # confirm on a fresh run of this case alone
            ok = False
            for _ in range(confirm_tries):
                # what only was slow, on a busy machine, is given the time it needs
                e2 = self.drive(mode, [cases[i]], variant, chunks=1, case_seconds=max(150, 2 * case_seconds), env=drv_env)
                if post:
                    e2 = [self.interpret(post, cases[i], e2[0])]
                b2 = self.validate(module, e2, cfg, env, chunks=1)
                self.traces -= 1
                if b2:
                    ok = True
                    why = b2[0][2]
                    q = b2[0][1]
                    break
            if not ok:
                sys.stderr.write('note: rejection of case %d not repeated: %s\n' % (i, why))
                self.detail.setdefault('unrepeated', []).append(str(why)[:200])
                continue
            self.report(mode, variant, module, cfg, cases[i], e2[0], q, why)
        return evs

    def report(self, mode, variant, module, cfg, case, events, at, why):
        h = hashlib.sha1(json.dumps([mode, case], sort_keys=True).encode()).hexdigest()[:10]
        for k in self.known:
            # the very input, failing in the very way
            if k.get('case_sha1') == h and reasons(k.get('why')) == reasons(why):
                self.known_hit.append(k)
                return
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'mode': mode, 'variant': variant, 'module': module, 'cfg': cfg,
                       'case': case, 'rejected_event': at, 'why': str(why), 'events': events}, f, indent=1)
        self.violations.append((path, str(why)))

    # ---------------------------------------------------------------- end
    def finish(self):
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'events_validated': self.events,
                           'samples': self.samples or ['none'], 'detail': self.detail},
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for path, why in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  rejected by the specification: %s' % why[:300])
        return 1 if self.violations else 0


def shorten(x, n=1200):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def reasons(why):
    return sorted(x.strip(' {}') for x in str(why).split(','))


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']
