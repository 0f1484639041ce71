"""Replay of the XDR semantics (Xdr.tla, XdrForms.tla, SunRpc.tla, Nfs3.tla)
into the library, into generated code and into the shipped packages."""
import json, os, re, shutil, subprocess, threading, concurrent.futures as cf
import xprint
from common import *

VARIANTS = [
    dict(unsigned=False, const='', split=False),
    dict(unsigned=True, const='uint32', split=True),
    dict(unsigned=False, const='int64', split=True),
    dict(unsigned=True, const='', split=False),
    dict(unsigned=False, const='int32', split=False),
    dict(unsigned=True, const='uint64', split=True),
]


def refs(t, out):
    if isinstance(t, dict):
        if t.get('k') == 'ref':
            out.add(t['n'])
        for v in t.values():
            refs(v, out)
    elif isinstance(t, list):
        for v in t:
            refs(v, out)


def closure(defs, avail):
    """defs plus everything in avail they refer to, in the order of avail."""
    by = {d['n']: d for d in avail}
    want, todo = set(), [d['n'] for d in defs]
    while todo:
        n = todo.pop()
        if n in want or n not in by:
            continue
        want.add(n)
        r = set()
        refs(by[n]['t'], r)
        todo += list(r)
    return [d for d in avail if d['n'] in want]


def refs_of(t):
    r = set()
    refs(t, r)
    return r


FUSSY = """package %s

import "github.com/zeldovich/go-rpcgen/xdr"

// Fussy is a codec written by a user: it rejects 13.
type Fussy uint32

func (v *Fussy) Xdr(xs *xdr.XdrState) {
	xdr.XdrU32(xs, (*uint32)(v))
	if (xs.Encoding() || xs.Decoding()) && *v == 13 {
		xs.SetError("unlucky")
	}
}
"""


class Pkg:
    """A compiled package of generated code, and which definitions it stands for."""
    def __init__(s, name, variant, defs, own):
        s.name, s.variant, s.defs, s.own = name, variant, defs, own


def gen_args(variant, x, d, pkg):
    a = ['-i', x, '-o', os.path.join(d, 'xdr.go'), '-p', pkg]
    if variant['split']:
        a += ['-t', os.path.join(d, 'types.go')]
    if variant['unsigned']:
        a += ['-unsigned-enum']
    if variant['const']:
        a += ['-const-type', variant['const']]
    return a


class Generated:
    """Compiles definitions with the generator under test, isolating those that fail."""
    def __init__(self, ctx, consts, pre):
        self.ctx, self.consts, self.pre = ctx, consts, pre
        self.mod = ctx.module('drv', ['codec'])
        self.n = 0
        self.lock = threading.Lock()
        self.failed = []   # (definition names, source, message)

    def text(self, defs):
        # definitions before and after the preamble: the order must not matter
        h = len(defs) // 2
        return ''.join([xprint.const(c) for c in self.consts] + [xprint.define(d['n'], d['t']) for d in defs[:h]] +
                       [xprint.define(d['n'], d['t']) for d in self.pre] +
                       [xprint.define(d['n'], d['t']) for d in defs[h:]])

    def attempt(self, name, variant, defs, extra=''):
        d = os.path.join(self.mod, 'gen', name)
        os.makedirs(d, exist_ok=True)
        x = os.path.join(d, 'in.x')
        src = self.text(defs) + extra
        with open(x, 'w') as f:
            f.write(src)
        if any('fussy' in refs_of(t['t']) for t in defs):
            with open(os.path.join(d, 'user.go'), 'w') as f:
                f.write(FUSSY % name)
        r = self.ctx.run([self.ctx.generator()] + gen_args(variant, x, d, name), cwd=d, timeout=120)
        if r.returncode != 0:
            return False, src, 'generator exits %d: %s' % (r.returncode, r.stderr.decode(errors='replace')[:300])
        if self.ctx.prop == 'C07':
            bad = self.options(name, variant, x, d)
            if bad:
                return False, src, bad
        r = self.ctx.run(['go', 'build', './gen/' + name], cwd=self.mod, timeout=300)
        if r.returncode != 0:
            return False, src, 'generated Go does not compile: ' + r.stderr.decode(errors='replace')[:400]
        return True, src, ''

    def options(self, name, variant, x, d):
        """What is wrong with how the outputs depend on the options, if anything."""
        outs = [n for n in ('xdr.go', 'types.go') if os.path.exists(os.path.join(d, n))]
        text = {n: open(os.path.join(d, n)).read() for n in outs}
        if ('types.go' in outs) != variant['split']:
            return 'the outputs are %s' % outs

        def package(t):
            m = re.search(r'^package\s+(\w+)', t, re.M)
            return m and m.group(1)
        for n in outs:
            if package(text[n]) != name:
                return '%s is of package %s, not %s' % (n, package(text[n]), name)
        other = os.path.join(d, 'again')      # the same again; and with no, or another, package name
        for pk, more in ((name, []), (name, ['-d']), (None, []), ('Other_1', [])):
            os.makedirs(other)
            a = more + gen_args(variant, x, other, pk or '')
            if pk is None:
                i = a.index('-p')
                del a[i:i + 2]
            r = self.ctx.run([self.ctx.generator()] + a, cwd=other, timeout=120)
            again = {n: open(os.path.join(other, n)).read() for n in os.listdir(other)} if r.returncode == 0 else {}
            shutil.rmtree(other)
            if sorted(again) != sorted(outs):
                return 'run again with -p %s it exits %d with outputs %s' % (pk, r.returncode, sorted(again))
            for n in outs:
                if package(again[n]) != (pk or 'main'):
                    return '%s is of package %s, not %s' % (n, package(again[n]), pk or 'main')
                if pk == name and again[n] != text[n]:
                    return '%s is not the same when it is generated again%s' % (n, ' with -d' if more else '')
                if pk != name and re.sub(r'(?m)^package\s+\w+', 'package x', again[n], count=1) != re.sub(r'(?m)^package\s+\w+', 'package x', text[n], count=1):
                    return '%s depends on the package name' % n
        if variant['split']:
            # the types by themselves are a package
            t = os.path.join(self.mod, 'gen', name, 'alone')
            os.makedirs(t)
            with open(os.path.join(t, 'types.go'), 'w') as f:
                f.write(text['types.go'])
            if os.path.exists(os.path.join(d, 'user.go')):
                with open(os.path.join(t, 'user.go'), 'w') as f:
                    f.write(open(os.path.join(d, 'user.go')).read())
            r = self.ctx.run(['go', 'build', './gen/%s/alone' % name], cwd=self.mod, timeout=300)
            if r.returncode != 0:
                return 'the types by themselves do not compile: ' + r.stderr.decode(errors='replace')[:400]

    def build(self, name, variant, own, avail, depth=0):
        """Pkgs for the definitions own; avail are all definitions of the group."""
        defs = closure(own, avail)
        ok, src, msg = self.attempt(name, variant, defs)
        if ok:
            return [Pkg(name, variant, defs, own)]
        if len(own) <= 1 or depth > 12:
            self.failed.append(([d['n'] for d in own], src, msg, variant))
            return []
        with self.lock:
            self.n += 1
            if self.n > 60:   # nothing works: report what is left as one
                self.failed.append(([d['n'] for d in own], src, msg, variant))
                return []
        h = len(own) // 2
        return self.build(name + 'a', variant, own[:h], avail, depth + 1) + \
            self.build(name + 'b', variant, own[h:], avail, depth + 1)


def go_registry(pkgs):
    """Go source of the registry entries of generated packages: (imports, types, consts)."""
    return ''.join('\t%s "verifdrv/gen/%s"\n' % (p, p) for p in pkgs)


def write_driver(mod, name, imports, types, consts):
    d = os.path.join(mod, 'cmd', name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'main.go'), 'w') as f:
        f.write('package main\n\nimport (\n\t"reflect"\n\t"verifdrv/codec"\n%s)\n\n' % ''.join(
            '\t%s %s\n' % (a, json.dumps(p)) for a, p in imports))
        f.write('func ty(p interface{}) reflect.Type { return reflect.TypeOf(p).Elem() }\n\n')
        f.write('func main() {\n\tcodec.Main(map[string]reflect.Type{\n')
        for n, e in types:
            f.write('\t\t%s: ty((*%s)(nil)),\n' % (json.dumps(n), e))
        f.write('\t}, map[string]interface{}{\n')
        for n, e in consts:
            f.write('\t\t%s: %s,\n' % (json.dumps(n), e))
        f.write('\t})\n}\n')
    return './cmd/' + name


def write_lib(mod):
    """Go types for the library primitives; returns (types, env)."""
    d = os.path.join(mod, 'libt')
    os.makedirs(d, exist_ok=True)
    src, env = ['package libt', 'import "github.com/zeldovich/go-rpcgen/xdr"'], {}
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 13, 100):
        src.append('type A%d [%d]byte\nfunc (v *A%d) Xdr(xs *xdr.XdrState) { xdr.XdrArray(xs, v[:]) }' % (n, n, n))
        env['a%d' % n] = {'k': 'fixed', 'n': n}
    for n in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 1000):
        m = 'N' if n < 0 else str(n)
        src.append('type V%s []byte\nfunc (v *V%s) Xdr(xs *xdr.XdrState) { xdr.XdrVarArray(xs, %d, (*[]byte)(v)) }' % (m, m, n))
        src.append('type S%s string\nfunc (v *S%s) Xdr(xs *xdr.XdrState) { xdr.XdrString(xs, %d, (*string)(v)) }' % (m, m, n))
        env['v' + m] = {'k': 'opaque', 'max': n}
        env['s' + m] = {'k': 'string', 'max': n}
    for g, f, k in (('Bo', 'Bool', 'bool'), ('I32', 'S32', 'int'), ('U32', 'U32', 'uint'), ('I64', 'S64', 'hyper'), ('U64', 'U64', 'uhyper')):
        gt = {'bool': 'bool', 'int': 'int32', 'uint': 'uint32', 'hyper': 'int64', 'uhyper': 'uint64'}[k]
        src.append('type %s %s\nfunc (v *%s) Xdr(xs *xdr.XdrState) { xdr.Xdr%s(xs, (*%s)(v)) }' % (g, gt, g, f, gt))
        env[g[0].lower() + g[1:]] = {'k': k}
    # a sequence of every primitive in one message
    prim = [('U32', 'u32'), ('VN', 'vN'), ('S5', 's5'), ('A3', 'a3'), ('Bo', 'bo'), ('V5', 'v5'), ('I64', 'i64'), ('SN', 'sN'), ('V3', 'v3'),
            ('I32', 'i32'), ('U64', 'u64'), ('A8', 'a8'), ('V100', 'v100')]
    src.append('type Mix struct {\n' + ''.join('\tF%d %s\n' % (i, g) for i, (g, _) in enumerate(prim)) + '}')
    src.append('func (v *Mix) Xdr(xs *xdr.XdrState) {\n' + ''.join('\tv.F%d.Xdr(xs)\n' % i for i in range(len(prim))) + '}')
    env['mix'] = {'k': 'struct', 'f': [{'n': 'f%d' % i, 't': {'k': 'ref', 'n': t}} for i, (_, t) in enumerate(prim)]}
    # user codecs: one that only fails, one that fails half-way
    src.append('type Fail struct{}\nfunc (v *Fail) Xdr(xs *xdr.XdrState) { xs.SetError("user") }')
    src.append('type Bomb struct { A U32; B Fail; C VN }\nfunc (v *Bomb) Xdr(xs *xdr.XdrState) { v.A.Xdr(xs); v.B.Xdr(xs); v.C.Xdr(xs) }')
    src.append('type Duo struct { A V3; B VN }\nfunc (v *Duo) Xdr(xs *xdr.XdrState) { v.A.Xdr(xs); v.B.Xdr(xs) }')
    for g, k in (('Bool', 'bool'), ('Uint32', 'uint'), ('Int32', 'int'), ('Uint64', 'uhyper'), ('Int64', 'hyper')):
        env['x' + g] = {'k': k}
    with open(os.path.join(d, 'libt.go'), 'w') as f:
        f.write('\n'.join(src) + '\n')
    types = [('fail', 'libt.Fail'), ('bomb', 'libt.Bomb'), ('duo', 'libt.Duo')]
    for n in env:
        types.append((n, 'xdr.' + n[1:] if n[0] == 'x' and n[1].isupper() else 'libt.' + n[0].upper() + n[1:]))
    return types, env


class Set_:
    """Types under test, by model name, with the driver binary that holds them."""
    def __init__(s, name, env, names, unsigned=None, consts=()):
        s.name, s.env, s.names, s.unsigned, s.consts = name, env, names, unsigned, list(consts)
        s.bin = s.cases = None
        s.shape = False


def make_cases(ctx, st, mutvals, mutwords, depth=3):
    tf, raw, out = ctx.path(st.name + '.types.json'), ctx.path(st.name + '.raw'), ctx.path(st.name + '.cases')
    with open(tf, 'w') as f:
        json.dump({'env': st.env, 'names': st.names, 'depth': depth, 'mutvals': mutvals, 'mutwords': mutwords,
                   'seed': ctx.seed % 1000}, f)
    os.makedirs(raw)
    ctx.tlc('XdrCases', env={'TYPES': tf, 'OUT': raw})
    cs = [c for n in sorted(os.listdir(raw)) for c in csv_lines(os.path.join(raw, n))]
    shutil.rmtree(raw)
    with open(out, 'w') as f:
        for c in cs:
            f.write(json.dumps(c, separators=(',', ':')) + '\n')
    st.cases = out
    st.ncases = len(cs)
    for c in cs[:: max(1, len(cs) // 3)][:3]:
        ctx.sample({'type': c['ty'], 'kind': c['kind'], 'value': c['v'] if len(str(c['v'])) < 300 else '...', 'bytes': bytes(c['b']).hex()[:200]})


def run_set(ctx, st):
    """Observations (dicts) of replaying the cases of a set."""
    inp, out, prog = ctx.path(st.name + '.in.json'), ctx.path(st.name + '.obs'), ctx.path(st.name + '.prog')
    with open(inp, 'w') as f:
        json.dump({'env': st.env, 'unsignedEnum': bool(st.unsigned), 'shape': st.shape, 'consts': st.consts}, f)
    obs = []

    def once(args, timeout):
        r = ctx.run([st.bin, '-in', inp, '-out', out, '-progress', prog] + args, timeout=timeout,
                    env=dict(ctx.goenv(), GOMEMLIMIT='6GiB', GOMAXPROCS='4'))
        o = []
        stats = {}
        if os.path.exists(out):
            for l in open(out):
                try:
                    x = json.loads(l)
                except ValueError:
                    continue
                if x['kind'] == 'stats':
                    stats = x['stats']
                else:
                    o.append(x)
        return r, o, stats
    r, obs, stats = once(['-cases', st.cases] if st.cases else [], 600)
    if r.returncode != 0 or not stats:
        # the driver died or hung: is it the case it was running?
        try:
            i = int.from_bytes(open(prog, 'rb').read(8), 'big')
        except OSError:
            i = None
        err = r.stderr.decode(errors='replace')
        if i is None:
            raise CheckError('driver of %s failed:\n%s' % (st.name, err[-2000:]))
        if 'driver:' in err or 'model:' in err:
            raise CheckError('driver of %s: %s' % (st.name, err[-2000:]))
        r2, o2, s2 = once(['-cases', st.cases, '-only', str(i)], 180)
        err2 = r2.stderr.decode(errors='replace')
        if s2 or ('HUNG' not in err2 and 'fatal error' not in err2 and 'signal' not in err2 and r2.returncode != -999):
            raise CheckError('driver of %s failed, and not again on case %d:\n%s\n%s' % (st.name, i, err[-1500:], err2[-500:]))
        with open(st.cases) as f:
            for k, l in enumerate(f):
                if k == i:
                    ty = json.loads(l)['ty']
        obs.append({'kind': 'crash', 'ty': ty, 'id': i, 'msg': 'crashes or hangs the process: ' + err2.strip().split('\n')[0][:200]})
    for k, v in stats.items():
        if not k.startswith('obs-'):
            ctx.count('%s %s' % (st.name, k), v)
    ctx.traces += stats.get('good', 0) + stats.get('bad', 0) + stats.get('mutations', 0)
    for o in obs:
        o['set'] = st.name
    return obs


def case_of(st, i):
    if st.cases and i >= 0:
        with open(st.cases) as f:
            for k, l in enumerate(f):
                if k == i:
                    return json.loads(l)
    return None


def forms(ctx):
    p = ctx.path('forms.json')
    if not os.path.exists(p):
        ctx.tlc('MCForms', env={'OUT': p}, workers=1, count=False)
    return json.load(open(p))


def shipped(ctx):
    p = ctx.path('shipped.json')
    if not os.path.exists(p):
        ctx.tlc('MCShipped', env={'OUT': p}, workers=1, count=False)
    return json.load(open(p))


def envof(*defs):
    return {d['n']: d['t'] for ds in defs for d in ds}


def const_wants(consts, consttype, defs):
    w = [{'n': c['n'], 'v': c['v'], 'type': consttype or 'int'} for c in consts]
    for d in defs:
        if d['t']['k'] == 'enum':
            for it in d['t']['items']:
                w.append({'n': it['n'], 'v': int.from_bytes(bytes(it['v']), 'big'), 'type': xprint.goname(d['n'])})
    return w


def lib_set(ctx):
    mod = ctx.module('drv', ['codec'])
    types, env = write_lib(mod)
    st = Set_('lib', env, sorted(env))
    cmd = write_driver(mod, 'lib', [('libt', 'verifdrv/libt'), ('xdr', 'github.com/zeldovich/go-rpcgen/xdr')], types, [])
    st.bin = ctx.path('bin-lib')
    ok, msg = ctx.gobuild(mod, cmd, st.bin)
    if not ok:
        raise CheckError('library driver does not build:\n' + msg[-2000:])
    return st


def regenerate(ctx, pkg):
    """Generates a shipped package anew, as the Makefile does; returns what goes wrong."""
    mod = ctx.module('drv', ['codec'])
    d = os.path.join(mod, 'regen', pkg)
    os.makedirs(d, exist_ok=True)
    x = os.path.join(ctx.repo(), pkg, 'prot.x')
    r = ctx.run([ctx.generator(), '-i', x, '-o', os.path.join(d, 'xdr.go'), '-t', os.path.join(d, 'types.go'), '-p', pkg,
                 '-unsigned-enum', '-const-type', 'uint32'], cwd=d, timeout=120)
    if r.returncode != 0:
        return 'the generator fails on %s/prot.x: %s' % (pkg, r.stderr.decode(errors='replace')[:300])
    r = ctx.run(['go', 'build', './regen/' + pkg], cwd=mod, timeout=300)
    if r.returncode != 0:
        return 'Go generated from %s/prot.x does not compile: %s' % (pkg, r.stderr.decode(errors='replace')[:400])


def shipped_sets(ctx, regen=False):
    """Sets for the shipped packages (or those generated anew); names the package lacks are reported, not built."""
    mod = ctx.module('drv', ['codec'])
    res, missing = [], []
    for pkg, sch in shipped(ctx).items():
        defs = sch['defs']
        if regen:
            bad = regenerate(ctx, pkg)
            if bad:
                missing.append(bad)
                continue
        st = Set_(pkg + ('-anew' if regen else ''), envof(defs), [d['n'] for d in defs], unsigned=True)
        progs = []
        for p in sch['progs']:
            progs.append({'n': p['n'], 'v': p['v'], 'type': 'uint32'})
            for v in p['vers']:
                progs.append({'n': v['n'], 'v': v['v'], 'type': 'uint32'})
                progs += [{'n': c['n'], 'v': c['v'], 'type': 'uint32'} for c in v['procs']]
        st.consts = const_wants(sch['consts'], 'uint32', defs) + progs
        st.shape = True
        imp = [(pkg, ('verifdrv/regen/' if regen else 'github.com/zeldovich/go-rpcgen/') + pkg)]
        types = [(n, pkg + '.' + xprint.goname(n)) for n in st.names]
        consts = [(c['n'], pkg + '.' + xprint.goname(c['n'])) for c in st.consts]
        st.bin = ctx.path('bin-' + st.name)
        while True:
            cmd = write_driver(mod, st.name, imp, types, consts)
            ok, msg = ctx.gobuild(mod, cmd, st.bin)
            if ok:
                break
            import re
            gone = set(re.findall(r'undefined: %s\.(\w+)' % pkg, msg))
            gone |= set(re.findall(r'(?:undefined|not exported).*?\b%s\.(\w+)' % pkg, msg))
            if not gone:
                raise CheckError('driver of %s does not build:\n%s' % (pkg, msg[-2000:]))
            missing += ['%s.%s is not declared as the RFC says' % (st.name, g) for g in gone]
            types = [t for t in types if t[1].split('.')[1] not in gone]
            consts = [t for t in consts if t[1].split('.')[1] not in gone]
        res.append(st)
    return res, missing


def gen_sets(ctx, nvariants=1, prefix='g', fm=None):
    """Sets of generated code for the enumerated forms: one per variant used."""
    fm = fm or forms(ctx)
    G = Generated(ctx, fm['consts'], fm['pre'])
    groups = [{'n': 'pre', 'defs': []}] + fm['groups']
    jobs = []
    for gi, g in enumerate(groups):
        for k in range(nvariants):
            jobs.append((gi, g, k, VARIANTS[(gi + ctx.seed + k * (1 if nvariants > 2 else 3)) % len(VARIANTS)]))
    ctx.generator()

    def job(j):
        gi, g, k, var = j
        own = g['defs'] or fm['pre']
        return j, G.build('%s%d%s' % (prefix, k, g['n']), var, own if g['defs'] else [], g['defs'])
    with cf.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(job, jobs))
    res = []
    for k in range(nvariants):
        for unsigned in (False, True):
            pk = [(j[1], p) for j, ps in built if j[2] == k and j[3]['unsigned'] == unsigned for p in ps]
            if not pk:
                continue
            name = '%s%d%s' % (prefix, k, 'u' if unsigned else 's')
            imp, types, consts, wants, env = [], [], [], [], envof(fm['pre'])
            env['fussy'] = {'k': 'fussy'}
            for g, p in pk:
                imp.append((p.name, 'verifdrv/gen/' + p.name))
                own = p.own
                if g['n'] == 'pre':
                    own = fm['pre']
                    consts += [(c['n'], p.name + '.' + xprint.goname(c['n'])) for c in fm['consts']]
                    wants += const_wants(fm['consts'], p.variant['const'], [])
                env.update(envof(own))
                for d in own:
                    types.append((d['n'], p.name + '.' + xprint.goname(d['n'])))
                    if d['t']['k'] == 'enum':
                        consts += [(it['n'], p.name + '.' + xprint.goname(it['n'])) for it in d['t']['items']]
                wants += const_wants([], '', own)
            if not types:
                continue
            st = Set_(name, env, [t[0] for t in types], unsigned=unsigned, consts=wants)
            st.shape = True
            used = set(t[1].split('.')[0] for t in types + consts)
            st.src = (imp, types, consts, used)
            res.append(st)
    for st in res:
        imp, types, consts, used = st.src
        missing = []
        st.bin = ctx.path('bin-' + st.name)
        import re
        for _ in range(4):
            cmd = write_driver(G.mod, st.name, [i for i in imp if i[0] in used], types, consts)
            ok, msg = ctx.gobuild(G.mod, cmd, st.bin)
            if ok:
                break
            gone = set(re.findall(r'undefined: (\w+\.\w+)', msg))
            if not gone:
                raise CheckError('driver of %s does not build:\n%s' % (st.name, msg[-2000:]))
            missing += sorted(gone)
            types = [t for t in types if t[1] not in gone]
            consts = [t for t in consts if t[1] not in gone]
            used = set(t[1].split('.')[0] for t in types + consts)
        st.missing = missing
        st.names = [t[0] for t in types]
    return res, G


STREAM_ENV = {'fail': {'k': 'fail'},
              'bomb': {'k': 'struct', 'f': [{'n': 'a', 't': {'k': 'ref', 'n': 'u32'}}, {'n': 'b', 't': {'k': 'ref', 'n': 'fail'}},
                                            {'n': 'c', 't': {'k': 'ref', 'n': 'vN'}}]},
              'duo': {'k': 'struct', 'f': [{'n': 'a', 't': {'k': 'ref', 'n': 'v3'}}, {'n': 'b', 't': {'k': 'ref', 'n': 'vN'}}]}}


def run_stream(ctx, st):
    """Replays XdrStream.tla into the library driver: exhaustively to depth 3, then long random behaviours."""
    out = ctx.path('stream')
    os.makedirs(out)
    depth, nsim = (4 if ctx.thorough else 3), (10000 if ctx.thorough else 400)

    def cfg(n, modes):
        p = ctx.path('stream-%s-%d.cfg' % (modes, n))
        with open(p, 'w') as f:
            f.write('SPECIFICATION Spec\nINVARIANT WithinInput\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANTS Len0 = %d\n  Modes = {"%s"}\n' % (n, modes))
        return p
    jobs = [(m, depth if m == 'r' else 3, ()) for m in 'rwh']
    jobs += [(m, 12, ('-simulate', 'num=%d' % nsim, '-depth', '14', '-seed', str(ctx.seed * 31 + i)))
             for i, m in enumerate('rwh')]

    def job(j):
        i, (m, n, a) = j
        ctx.tlc('XdrStream', env={'OUT': out, 'SHARD': str(i)}, workers=1, cfg=cfg(n, m), args=a)
    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(job, enumerate(jobs)))
    inp, obsf = ctx.path('stream.in.json'), ctx.path('stream.obs')
    with open(inp, 'w') as f:
        json.dump({'env': dict(st.env, **STREAM_ENV)}, f)
    files = [os.path.join(out, n) for n in sorted(os.listdir(out))]
    obs = []

    def replay(f):
        o = f + '.obs'
        r = ctx.run([st.bin, 'stream', '-in', inp, '-out', o, f], timeout=600)
        return r, [json.loads(l) for l in open(o)] if os.path.exists(o) else []
    with cf.ThreadPoolExecutor(6) as ex:
        for r, xs in ex.map(replay, files):
            if r.returncode != 0 or not xs or xs[-1]['kind'] != 'stats':
                raise CheckError('stream driver failed:\n' + r.stderr.decode(errors='replace')[-2000:])
            for k, v in xs.pop()['stats'].items():
                if not k.startswith('obs-'):
                    ctx.count('stream ' + k, v)
                    if k == 'behaviours':
                        ctx.traces += v
            obs += [dict(x, set='stream') for x in xs]
    with open(files[-1]) as f:
        t = json.loads(json.loads(f.readline()))
        ctx.sample({'behaviour': [{k: v for k, v in s.items() if k in ('op', 't', 'v', 'k', 'i', 'b')} for s in t['h']]})
    shutil.rmtree(out)
    return obs


def run_big(ctx, st):
    """Replays XdrBig.tla into the library driver."""
    inp, obsf = ctx.path('big.json'), ctx.path('big.obs')
    ctx.tlc('XdrBig', env={'OUT': inp}, workers=1)
    r = ctx.run([st.bin, 'big', inp, obsf], timeout=600)
    xs = [json.loads(l) for l in open(obsf)] if os.path.exists(obsf) else []
    if r.returncode != 0 or not xs or xs[-1]['kind'] != 'stats':
        err = r.stderr.decode(errors='replace')
        if 'out of memory' in err or 'stack overflow' in err:
            return [{'kind': 'crash', 'ty': 'opaque/string', 'id': -1, 'msg': err[:200], 'set': 'big'}]
        raise CheckError('big driver failed:\n' + err[-2000:])
    for k, v in xs.pop()['stats'].items():
        if not k.startswith('obs-'):
            ctx.count('big ' + k, v)
            ctx.traces += v
    return [dict(x, set='big') for x in xs]


def run_bulk(ctx):
    """Replays XdrBulk.tla into generated code."""
    inp, obsf = ctx.path('bulk.json'), ctx.path('bulk.obs')
    ctx.tlc('XdrBulk', env={'OUT': inp}, workers=1)
    fm = json.load(open(inp))
    fm['pre'] = fm['elems']
    fm['groups'] = [{'n': 'k', 'defs': fm['defs']}]
    sets, G = gen_sets(ctx, 1, 'bulk', fm)
    obs = []
    for st in sets:
        r = ctx.run([st.bin, 'bulk', inp, obsf], timeout=600)
        xs = [json.loads(l) for l in open(obsf)] if os.path.exists(obsf) else []
        if r.returncode != 0 or not xs or xs[-1]['kind'] != 'stats':
            err = r.stderr.decode(errors='replace')
            if 'out of memory' in err or 'stack overflow' in err or r.returncode == -999:
                obs.append({'kind': 'crash', 'ty': 'many elements', 'id': -1, 'msg': err[:200], 'set': 'big'})
                continue
            raise CheckError('bulk driver failed:\n' + err[-2000:])
        for k, v in xs.pop()['stats'].items():
            if not k.startswith('obs-'):
                ctx.count('bulk ' + k, v)
                ctx.traces += v
        obs += [dict(x, set='big') for x in xs]
    return obs, sets, G
