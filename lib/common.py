"""What every check shares: a scratch copy of /repo, TLC, the Go toolchain,
the verdict and the evidence file."""
import json, os, random, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = os.path.join(VERIF, 'tla')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Enough(Exception):
    """Violations were found: what is left need not be run."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known, self.notes = [], [], [], []
        self.counts = {}
        self._repo = None

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def rng(self, salt):
        return random.Random('%d/%s' % (self.seed, salt))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---------------------------------------------------------------- verdicts
    def violation(self, what, replay):
        """what: one line; replay: any JSON-able description of the failing case."""
        self.violations.append((what, replay))

    # --------------------------------------------------------------------- Go
    def goenv(self):
        e = dict(os.environ)
        e.update(HOME=os.environ.get('HOME', '/root'),
                 PATH='/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:/usr/local/bin:/usr/bin:/bin',
                 GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off',
                 GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GONOSUMDB='*', GONOSUMCHECK='1')
        e.setdefault('GOCACHE', '/root/.cache/go-build')
        return e

    def run(self, cmd, cwd=None, timeout=600, env=None, input=None):
        try:
            return subprocess.run(cmd, cwd=cwd, env=env or self.goenv(), timeout=timeout, input=input,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except subprocess.TimeoutExpired as ex:
            class R: pass
            r = R()
            r.returncode, r.stdout, r.stderr = -999, ex.stdout or b'', (ex.stderr or b'') + b'\n[timeout]'
            return r

    def repo(self):
        """A scratch copy of /repo's working tree, generator's parser made anew."""
        if self._repo is None:
            d = self.path('repo')
            shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', 'go-rpcgen', 'y.output'), symlinks=True)
            p = os.path.join(d, 'xdr.go')
            if os.path.exists(p):
                os.remove(p)
            r = self.run(['goyacc', '-o', 'xdr.go', '-p', 'xdr', 'xdr.y'], cwd=d)
            if r.returncode != 0:
                raise CheckError('goyacc failed:\n' + r.stderr.decode(errors='replace'))
            self._repo = d
        return self._repo

    def generator(self):
        g = self.path('go-rpcgen')
        if not os.path.exists(g):
            r = self.run(['go', 'build', '-o', g, '.'], cwd=self.repo())
            if r.returncode != 0:
                raise CheckError('generator does not build:\n' + r.stderr.decode(errors='replace'))
        return g

    def module(self, name, srcdirs=()):
        """A Go module in scratch that uses the copied repo; srcdirs: /verif/go packages to copy in."""
        d = self.path(name)
        if not os.path.isdir(d):
            os.makedirs(d)
            with open(os.path.join(d, 'go.mod'), 'w') as f:
                f.write('module verifdrv\n\ngo 1.20\n\nrequire github.com/zeldovich/go-rpcgen v0.0.0\n\n'
                        'replace github.com/zeldovich/go-rpcgen => %s\n' % self.repo())
            shutil.copy(os.path.join(self.repo(), 'go.sum'), os.path.join(d, 'go.sum'))
        for s in srcdirs:
            t = os.path.join(d, s)
            if not os.path.isdir(t):
                shutil.copytree(os.path.join(VERIF, 'go', s), t)
        return d

    def gobuild(self, moddir, pkg, out, race=False):
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, pkg]
        r = self.run(cmd, cwd=moddir)
        return r.returncode == 0, (r.stdout + r.stderr).decode(errors='replace')

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, env=None, workers=8, args=(), timeout=800, cfg=None, mem='6g', allow_violation=False,
            count=True, deadlock_ok=True):
        """Runs TLC on /verif/tla/<module>.tla; any error of the model is an error of the check."""
        if self.violations:      # every stage of a check starts here
            raise Enough()
        meta = tempfile.mkdtemp(prefix='meta-', dir=self.scratch)
        e = self.goenv()
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + mem, '-DTLA-Library=' + TLA, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', meta, '-workers', str(workers), '-config', cfg or os.path.join(TLA, module + '.cfg')]
        cmd += list(args) + [os.path.join(TLA, module + '.tla')]
        r = self.run(cmd, cwd=meta, env=e, timeout=timeout)
        out = r.stdout.decode(errors='replace') + r.stderr.decode(errors='replace')
        shutil.rmtree(meta, ignore_errors=True)
        bad = r.returncode != 0
        if bad and not allow_violation:
            raise CheckError('TLC failed on %s (exit %s):\n%s' % (module, r.returncode, out[-4000:]))
        import re
        gen = dist = 0
        for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out):
            gen, dist = int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))
        m = re.search(r'The number of states generated: ([\d,]+)', out)   # simulation
        if m and not gen:
            gen = dist = int(m.group(1).replace(',', ''))
        if count:
            self.states += dist
            self.transitions += gen
        self.log('TLC %s: %d generated, %d distinct' % (module, gen, dist))
        return TLCResult(r.returncode, out, gen, dist)

    # --------------------------------------------------------------- epilogue
    def finish(self, level='model_checking', assumptions=()):
        known = load_known()
        new = 0
        seen = set()
        for what, replay in self.violations:
            if what in seen:
                continue
            seen.add(what)
            new += 1
            if new <= 5:
                d = os.path.join(VERIF, 'out', self.prop)
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, 'violation-%d.json' % new)
                with open(p, 'w') as f:
                    json.dump({'property': self.prop, 'what': what, 'seed': self.seed, 'tier': self.tier,
                               'case': replay}, f, indent=1)
                print('# %s: %s' % (self.prop, what))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['(none)']}
        cov.update(self.counts)
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': new}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        sys.stdout.flush()
        return 1 if new else 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class TLCResult:
    def __init__(self, rc, out, gen, dist):
        self.rc, self.out, self.gen, self.dist = rc, out, gen, dist


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    return open(p).read().splitlines() if os.path.exists(p) else []


def csv_lines(path):
    """The records that a specification wrote with CSVWrite(ToJson(..))."""
    if not os.path.exists(path):
        return
    with open(path) as f:
        for l in f:
            l = l.strip()
            if l:
                yield json.loads(json.loads(l))
