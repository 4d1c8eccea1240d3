#!/usr/bin/python3
"""Runs sequences of the command line program: clisession.py MODE IN OUT START
$VERIF_CLI is the program.  After every run the models and scores of all directories are shown."""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pysession import nodes, fixed, val_of
HEADS = {'str': '# dtype=strings', 'raw': '# dtype=raw_floats', 'bkt': '# dtype=bucketized_floats'}


def md5(b):
    return hashlib.md5(b).hexdigest()[:12]


class Session:
    def __init__(self, exe, scratch, case):
        self.exe, self.d, self.case, self.k = exe, scratch, case, 0

    def path(self, *a):
        return os.path.join(self.d, *a)

    def cell(self, c, i):
        return c['v'][i] if c['t'] == 'str' else repr(val_of(c['v'][i]))

    # ------------------------------------------------------------ inputs
    def tsv(self, o, cols):
        n = len(cols[0]['v'])
        body = [[self.cell(c, i) for c in cols] for i in range(n)]
        bad, at = o.get('defect', ''), o.get('at', 0)
        if bad == 'float':
            used = [j for j, c in enumerate(cols) if c['n'] == o['on']]
            body[at % n][used[0]] = ['1.5x', 'abc', '--1', '1 2'][at % 4]
        if bad == 'width':
            body[at % n] = body[at % n][:[c['n'] for c in cols].index(o['on'])]
        head = [c['n'] for c in cols]
        if bad == 'column':
            head[[c['n'] for c in cols].index(o['on'])] = 'other'
        text = ['\t'.join(r) for r in body]
        cut = sorted(x % (n + 1) for x in o['cuts'])
        files, a = [], 0
        for i, c in enumerate(cut + [n]):
            p = self.path('in%d.%d.tsv' % (self.k, i))
            rows = (['\t'.join(head)] if i == 0 else []) + text[a:c]
            with open(p, 'w') as f:
                f.write(''.join(r + '\n' for r in rows))
            files.append(p)
            a = c
        if bad == 'datagone':
            os.unlink(files[at % len(files)])
        if bad == 'datadir':
            x = files[at % len(files)]
            os.unlink(x)
            os.mkdir(x)
        return ['--tsvs=' + ','.join(files)]

    def flat(self, o, cols):
        bad, at = o.get('defect', ''), o.get('at', 0)
        k = 1 + len(o['cuts'])
        dirs = [self.path('flat%d.%d' % (self.k, i)) for i in range(k)]
        for x in dirs:
            os.mkdir(x)
        for j, c in enumerate(cols):
            v = [self.cell(c, i) for i in range(len(c['v']))]
            h = HEADS[c['t']]
            if c['n'] == o.get('on'):
                if bad == 'rows':
                    v = v[:-1] if at % 2 else v + v[:1]
                if bad == 'column':
                    continue
                if bad == 'dtype':
                    h = ['# dtype=floats', '#', v[0], '', HEADS['str' if c['t'] != 'str' else 'raw'], HEADS[{'raw': 'bkt', 'bkt': 'raw', 'str': 'bkt'}[c['t']]]][at % 6]
                if bad == 'datadir':
                    os.mkdir(os.path.join(dirs[(j + at) % k], c['n']))
                    continue
            with open(os.path.join(dirs[(j + at) % k], c['n']), 'w') as f:
                f.write('\n'.join([h] + v) + '\n')
        if bad == 'datagone':
            for x in dirs:
                shutil.rmtree(x)
        return ['--flatfiles_dirs=' + ','.join(dirs)]

    def config(self, o):
        bad, at = o.get('defect', ''), o.get('at', 0)
        p = self.path('config%d.json' % self.k)
        def camel(s):
            return re.sub('_(.)', lambda m: m.group(1).upper(), s) if o.get('camel') else s
        text = json.dumps({camel(k): v for k, v in o['cfg'].items()})
        if bad == 'noconfig':
            return []
        if bad == 'configgone':
            return ['--config_file=' + p]
        if bad == 'configdir':
            os.mkdir(p)
            return ['--config_file=' + p]
        if bad == 'configempty':
            text = ''
        if bad == 'configsyntax':
            text = [text[:-1], text + '}', '[]', '{"num_trees" 3}', 'num_trees: 3', text[:len(text) // 2]][at % 6]
        if bad == 'configtype':
            text = text[:-1] + [', "seed": 3}', ', "num_leaves": "x"}', ', "float_feature": 7}', ', "target_column": ["y"]}', ', "num_trees": 1e20}', ', "example_sampling_rate": "high"}'][at % 6]
        with open(p, 'w') as f:
            f.write(text)
        return ['--config_file=' + p]

    def model(self, flag, o, name):
        bad, at = o.get('defect', ''), o.get('at', 0)
        p = self.path('out' + name[0], name[1] + '.json')
        if bad in ('modelgone', 'modelempty', 'modelsyntax', 'modeldir'):
            q = self.path('broken%d.json' % self.k)
            if bad == 'modeldir':
                os.mkdir(q)
            elif bad != 'modelgone':
                with open(p) as f:
                    t = f.read()
                t = '' if bad == 'modelempty' else [t[:-1], t[:len(t) // 2], '[]', '{"tree": 3}', '{"trees": []}', '{"tree": [{"score": "x"}]}'][at % 6]
                with open(q, 'w') as f:
                    f.write(t)
            p = q
        return ['--%s=%s' % (flag, p)]

    def size(self, name):
        with open(self.path('out' + name[0], name[1] + '.json')) as f:
            return len(json.load(f)['tree'])

    # ------------------------------------------------------------ one run
    def run(self, o):
        self.k += 1
        bad, at = o.get('defect', ''), o.get('at', 0)
        cols = self.case['tables'][o['table'] - 1]
        a = ['--mode=' + (['tests', '', 'Train', 'TEST'][at % 4] if bad == 'mode' else o['op'])]
        a += self.config(o)
        if bad != 'nodata':
            a += self.tsv(o, cols) if o['fmt'] == 'tsv' else self.flat(o, cols)
        out = self.path('out' + o['dir'])
        name = o.get('name', '')
        if o['op'] == 'train':
            if o.get('base'):
                a += self.model('base_model_file', o, o['base'])
            if name != 'forest' or at % 2:
                a += ['--output_model_name=' + name]
            if 'seed' in o:
                a += ['--seed=%d' % o['seed']]
        elif bad != 'nomodel':
            a += self.model('testing_model_file', o, o['model'])
        a += ['--num_threads=%d' % o['threads']]
        undo = []
        if bad == 'outgone':
            out = os.path.join(out, 'not', 'there')
        elif bad == 'outfile':
            out = self.path('plain%d' % self.k)
            open(out, 'w').close()
        elif bad in ('full', 'fullimps', 'isdir', 'isdirimps', 'fullscore', 'isdirscore'):
            made = not os.path.isdir(out)
            if made:
                os.mkdir(out)
            n = {'full': name + '.json', 'isdir': name + '.json', 'fullimps': name + '.fimps', 'isdirimps': name + '.fimps'}.get(bad) or 'forest.%d.score' % self.size(o['model'])
            keep = self.path('kept%d' % self.k)
            shutil.copytree(out, keep)
            t = os.path.join(out, n)
            if os.path.exists(t):
                os.unlink(t)
            if bad.startswith('full'):
                os.symlink('/dev/full', t)
            else:
                os.mkdir(t)
            def put_back():
                shutil.rmtree(out)
                if made:
                    shutil.rmtree(keep)
                else:
                    os.rename(keep, out)
            undo.append(put_back)
        if bad != 'noout':
            a += ['--output_dir=' + out]
        env = {k: v for k, v in os.environ.items() if not k.startswith('GLOG_')}
        env.update(GLOG_logtostderr='1', MALLOC_PERTURB_='85', HOME=self.d)
        try:
            p = subprocess.run([self.exe] + a, cwd=self.d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               timeout=int(os.environ.get('VERIF_RUN_SECONDS', '20')))
            rc, err = p.returncode, p.stderr.decode('utf8', 'replace')
            what = 'ok' if rc == 0 else 'fail' if rc > 0 or rc == -6 else 'crash'
            # an abort with a message is a failure, one of the allocator or of the library is a crash
            if rc == -6 and not re.search(r'^F[0-9]{4,8} |terminate called', err, re.M):
                what = 'crash'
        except subprocess.TimeoutExpired:
            rc, what, err = 0, 'hang', ''
        vacuous = False
        if bad == 'fullimps':
            try:
                with open(os.path.join(out, name + '.json')) as f:
                    vacuous = '"feature"' not in f.read()
            except OSError:
                pass
        for f in undo:
            f()
        ev = {x: y for x, y in o.items() if x != 'op'}
        # the program may have written elsewhere
        ev.update(e=o['op'], what=what, rc=rc, defect=bad, vacuous=vacuous, cfgkey=json.dumps(o['cfg'], sort_keys=True))
        if what != 'ok':
            ev['said'] = ([x for x in err.splitlines() if x[:1] == 'F' or 'terminate' in x or 'what()' in x] or ['?'])[0][-200:]
        if what == 'ok' and o['op'] == 'train':
            try:
                with open(self.path('out' + o['dir'], name + '.json')) as f:
                    m = json.load(f)
                ev['trees'] = [nodes(t) for t in m.get('tree', [])]
                ev['meta'] = bool(m.get('metaInfo'))
                with open(self.path('out' + o['dir'], name + '.fimps')) as f:
                    ev['imp'] = [{'f': l.rstrip('\n').split('\t')[0], 'v': fixed(l.rstrip('\n').split('\t')[1], 1000000)} for l in f if l.strip()]
                ev['read'] = True
            except (OSError, ValueError, IndexError):
                ev['read'] = False
        if what == 'ok' and o['op'] == 'test':
            ev['got'] = [s for s in self.scores(o['dir'], True)]
        for x in os.listdir(self.d):       # inputs are not needed any more
            if not x.startswith('out'):
                q = self.path(x)
                shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.unlink(q)
        ev.update(self.shown())
        return ev

    def scores(self, d, values):
        out = []
        q = self.path('out' + d)
        for n in sorted(os.listdir(q)) if os.path.isdir(q) else []:
            m = re.match(r'forest\.(\d+)\.score$', n)
            if m:
                with open(os.path.join(q, n), 'rb') as f:
                    b = f.read()
                s = {'d': d, 'p': int(m.group(1)), 'h': md5(b)}
                if values:
                    s['v'] = [fixed(float(x)) for x in b.decode().split('\n')] if b else []
                out.append(s)
        return out

    def shown(self):
        ms, ss, odd = [], [], []
        for x in sorted(os.listdir(self.d)):
            d = x[3:]
            ss += self.scores(d, False)
            for n in sorted(os.listdir(self.path(x))):
                p = self.path(x, n)
                if re.match(r'forest\.(\d+)\.score$', n):
                    continue
                if n.endswith('.json') and os.path.isfile(p):
                    with open(p, 'rb') as f:
                        b = f.read()
                    try:
                        h = md5(json.dumps(json.loads(b)['tree'], sort_keys=True).encode())
                    except (ValueError, KeyError):
                        h = 'broken'
                    i = p[:-5] + '.fimps'
                    with open(i, 'rb') if os.path.isfile(i) else open('/dev/null', 'rb') as f:
                        ih = md5(f.read())
                    ms.append({'d': d, 'n': n[:-5], 'raw': md5(b), 'hex': h, 'imp': ih})
                elif not (n.endswith('.fimps') and os.path.isfile(p[:-6] + '.json')):
                    odd.append(x + '/' + n)
        return {'models': ms, 'scores': ss, 'odd': odd}


def main():
    mode, src, dst, start = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    exe = os.environ['VERIF_CLI']
    scratch = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    with open(src) as f:
        cases = [json.loads(l) for l in f]
    with open(dst, 'a') as out:
        for i in range(start, len(cases)):
            sc = os.path.join(scratch, 'case')
            os.mkdir(sc)
            s = Session(exe, sc, cases[i])
            evs = [{'e': 'Open', 'tables': cases[i]['tables']}]
            for o in cases[i]['ops']:
                # runs on models that do not exist are not part of a history
                need = o.get('base') or o.get('model')
                if need and not os.path.isfile(s.path('out' + need[0], need[1] + '.json')):
                    continue
                evs.append(s.run(o))
            for e in evs:
                e['c'] = i
                out.write(json.dumps(e) + '\n')
            out.flush()
            shutil.rmtree(sc)
    shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
