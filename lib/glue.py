"""C09: the glue of programs; behaviours of Glue.tla replayed into generated and shipped glue."""
import concurrent.futures
import codec, rpc, xprint
from common import *


def gotype(t, pkg):
    k = t['k']
    b = {'int': 'xdr.Int32', 'uint': 'xdr.Uint32', 'hyper': 'xdr.Int64', 'uhyper': 'xdr.Uint64', 'bool': 'xdr.Bool'}.get(k)
    return b or pkg + '.' + xprint.goname(t['n'])


def programs(ctx, which, rot):
    p = ctx.path('progs-%s.json' % which)
    ctx.tlc('MCGlue', env={'OUT': p, 'WHICH': which, 'ROT': rot}, workers=1, count=False)
    return json.load(open(p))


def source(m):
    """The .x text: the programs stand before, between and after the definitions."""
    ds = [xprint.define(d['n'], d['t']) for d in m['defs']]
    ps = [xprint.program(p) for p in m['progs']]
    h = len(ds) // 2
    return ''.join(xprint.const(c) for c in m['consts']) + ps[0] + ''.join(ds[:h]) + ''.join(ps[1:2]) + ''.join(ds[h:]) + ''.join(ps[2:])


def procs(m):
    res = []
    for pi, p in enumerate(m['progs']):
        for vi, v in enumerate(p['vers']):
            for c in v['procs']:
                res.append({'p': pi + 1, 'v': vi + 1, 'n': c['n'], 'a': c['a'], 'r': c['r'], 'reg': [p['v'], v['v'], c['v']]})
    return res


def write_glue_driver(ctx, mod, name, pkg, path, m):
    """A command with handlers for every version, which report to glue.Rec."""
    src, vers, ctors, k = [], [], [], 0
    new = lambda t: 'func() xdr.Xdrable { return new(%s) }' % ('xdr.Void' if t['k'] == 'void' else gotype(t, pkg))
    consts = {}
    for p in m['progs']:
        for x in [p] + p['vers'] + [c for v in p['vers'] for c in v['procs']]:
            consts[xprint.goname(x['n'])] = int.from_bytes(bytes(x['v']), 'big')
    for pi, p in enumerate(m['progs']):
        for vi, v in enumerate(p['vers']):
            h = 'h_%d_%d' % (pi + 1, vi + 1)
            src.append('type %s struct{ r *glue.Rec }\n' % h)
            for c in v['procs']:
                k += 1
                ctors.append('\t\t{%s, %s},\n' % (new(c['a']), new(c['r'])))
                a = '' if c['a']['k'] == 'void' else 'a ' + gotype(c['a'], pkg)
                r = '' if c['r']['k'] == 'void' else '(res %s)' % gotype(c['r'], pkg)
                src.append('func (h %s) %s(%s) %s {\n\th.r.Call(%d, %s, %s)\n\treturn\n}\n' % (
                    h, xprint.goname(c['n']), a, r, k, '&a' if a else 'nil', '&res' if r else 'nil'))
            vers.append('\t\t{%d, %d, func(r *glue.Rec) []xdr.ProcRegistration { return %s.%s_%s_regs(%s{r}) }},\n' % (
                pi + 1, vi + 1, pkg, xprint.goname(p['n']), xprint.goname(v['n']), h))
    d = os.path.join(mod, 'cmd', name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'main.go'), 'w') as f:
        f.write('package main\n\nimport (\n\t"verifdrv/glue"\n\t%s %s\n\t"github.com/zeldovich/go-rpcgen/xdr"\n)\n\nvar _ xdr.Void\n\n' % (pkg, json.dumps(path)))
        f.write('\n'.join(src) + '\nfunc main() {\n\tglue.Main([]glue.Version{\n' + ''.join(vers) + '\t}, []glue.Const{\n' +
                ''.join('\t\t{%s, %s.%s, %d},\n' % (json.dumps(n), pkg, n, v) for n, v in sorted(consts.items())) +
                '\t}, []glue.Ctor{\n' + ''.join(ctors) + '\t})\n}\n')
    return './cmd/' + name


def build(ctx, which, rot, blame=True):
    """The driver of a set of programs and its table; None and (with blame) a violation if it does not build."""
    violation = ctx.violation if blame else lambda msg, _: ctx.log(msg)
    m = programs(ctx, which, rot)
    mod = ctx.module('drv', ['codec', 'glue'])
    if which == 'gen':
        pkg = 'gprogs'
        var = codec.VARIANTS[rot % len(codec.VARIANTS)]
        d = os.path.join(mod, 'gen', pkg)
        os.makedirs(d, exist_ok=True)
        x = os.path.join(d, 'in.x')
        with open(x, 'w') as f:
            f.write(source(m))
        r = ctx.run([ctx.generator()] + codec.gen_args(var, x, d, pkg), cwd=d, timeout=120)
        if r.returncode != 0:
            violation('the generator fails on declared programs: ' + r.stderr.decode(errors='replace')[:300], {'source': source(m)})
            return None, None
        r = ctx.run(['go', 'build', './gen/' + pkg], cwd=mod, timeout=300)
        if r.returncode != 0:
            violation('the glue of declared programs does not compile: ' + r.stderr.decode(errors='replace')[:400], {'source': source(m)})
            return None, None
        path = 'verifdrv/gen/' + pkg
    else:
        pkg, path = which, 'github.com/zeldovich/go-rpcgen/' + which
    cmd = write_glue_driver(ctx, mod, 'glue' + which, pkg, path, m)
    b = ctx.path('bin-glue-' + which)
    ok, msg = ctx.gobuild(mod, cmd, b)
    if not ok:
        violation('%s: the glue does not take handlers with the declared methods: %s' % (which, msg.replace('\n', ' ')[:400]), {'message': msg[-3000:]})
        return None, None
    t = ctx.path('table-%s.json' % which)
    with open(t, 'w') as f:
        json.dump({'env': codec.envof(m['defs']), 'procs': procs(m)}, f)
    return b, t


def c09(ctx):
    for which in ('gen', 'rfc1057', 'rfc1813'):
        rots = [ctx.seed % 100] if which != 'gen' or not ctx.thorough else [ctx.seed % 100 + i for i in range(5)]
        for rot in rots:
            if os.path.isdir(ctx.path('drv', 'gen', 'gprogs')):
                shutil.rmtree(ctx.path('drv', 'gen', 'gprogs'))
            drv, table = build(ctx, which, rot)
            if not drv:
                continue
            env = {'WHICH': which, 'ROT': rot}
            tab = lambda f: [table]
            rpc.replay(ctx, drv, 'regs', [table], props=('C09',), what=which + ': registrations', crash='C09')
            fs = rpc.sharded(ctx, 'Glue', 'Glue', 'gl-%s-%d' % (which, rot), env=env)
            ctx.sample({'glue behaviour': rpc.line(fs[0], 7)})
            rpc.replay(ctx, drv, 'replay', fs, tab, props=('C09',), what=which, crash='C09')
            fs = rpc.sharded(ctx, 'Glue', 'GlueRandom', 'glr-%s-%d' % (which, rot), env=env, sim=(500 if ctx.thorough else 60, 40))
            rpc.replay(ctx, drv, 'replay', fs, tab, props=('C09',), what=which + ', random', crash='C09')


# ------------------------------------------------------------------- C17
BROKEN = ('MCE2EDie', 'MCE2ELast', 'MCE2ELock', 'MCE2EShare', 'MCE2ETwice')


def e2e_model(ctx):
    """Clients, connections and server in every interleaving, watched by RpcE2E; and, as a test of the
    specification itself, broken variants that must not pass."""
    for cfg in ('MCE2E', 'MCE2ETwo') + (('MCE2EMulti',) if ctx.thorough else ()):
        ctx.tlc('MCE2E', cfg=os.path.join(TLA, cfg + '.cfg'))
    ctx.tlc('MCE2EMon', cfg=os.path.join(TLA, 'MCE2EMon%s.cfg' % ('Deep' if ctx.thorough else '')))
    for cfg in BROKEN:
        r = ctx.tlc('MCE2E', cfg=os.path.join(TLA, cfg + '.cfg'), allow_violation=True, count=False)
        if r.rc not in (12, 13):
            raise CheckError('the specification does not tell the broken system %s from a good one (%s)' % (cfg, r.rc))
        ctx.count('broken systems rejected')


def explain(e):
    what = {'call': 'client %(c)s makes call %(n)s (procedure %(k)s, argument %(a)s)', 'enter': 'a method is called: %(k)s, argument %(a)s, invocation %(i)s',
            'exit': 'invocation %(i)s returns result %(r)s, its argument is %(a)s', 'cut': 'the connection of client %(c)s fails',
            'odd': 'peer %(c)s: %(what)s', 'stuck': 'calls do not return', 'end': 'everything is over, although calls have not been served'}
    if e['e'] == 'ret':
        return ('call %(n)s of client %(c)s returns result %(r)s' if e['ok'] else 'call %(n)s of client %(c)s returns an error') % e
    return what[e['e']] % e


def storms(ctx, which, rot, num, prop='C17', kinds=None):
    """kinds: the events that count against prop; all of them if None."""
    drv, table = build(ctx, which, rot, prop == 'C17')
    if not drv:
        return
    env = {'WHICH': which, 'ROT': rot}
    tab = ctx.path('e2e-%s.json' % which)
    ctx.tlc('E2ETable', env=dict(env, OUT=tab), workers=1, count=False)
    fs = rpc.sharded(ctx, 'E2EPlan', 'E2EPlan', 'e2e-' + which, env=env, sim=(num, 3))
    ctx.sample({'plan': rpc.line(fs[0], 0)})
    log = lambda f: f + '.log'
    rpc.replay(ctx, drv, 'storm', fs, lambda f: [table, tab, log(f)], props=(prop,), what=which, crash=prop, timeout=400)

    def judge(f):
        if os.path.exists(log(f)):      # a process that crashed may have left part of a line
            ls = open(log(f)).read().split('\n')
            if ls[-1]:
                open(log(f), 'w').write(''.join(l + '\n' for l in ls[:-1]))
        if os.path.exists(log(f)) and os.path.getsize(log(f)):
            ctx.tlc('E2ETrace', env={'LOG': log(f), 'OUT': f + '.bad'}, workers=1, mem='3g')
    with concurrent.futures.ThreadPoolExecutor(rpc.SHARDS) as ex:
        list(ex.map(judge, fs))
    for f in fs:
        if not os.path.exists(log(f)):
            continue
        logs = [json.loads(l) for l in open(log(f))]
        if logs:
            ctx.sample({'recorded': logs[0][:12]})
        for b in csv_lines(f + '.bad'):
            l = logs[b['t'] - 1]
            e = l[b['i'] - 1]
            if kinds and (e['e'] not in kinds or not e.get('ok', True)):
                continue
            ctx.violation('%s: no behaviour of the specification has: %s' % (which, explain(e)), {'event': e, 'events': l[:b['i']], 'plan': rpc.line(f, b['t'] - 1)})


def c17(ctx):
    e2e_model(ctx)
    for which in ('gen', 'rfc1057', 'rfc1813'):
        storms(ctx, which, ctx.seed % 100, 600 if ctx.thorough else 60)


# ------------------------------------------------------------------- C13
def c13(ctx):
    """The server alone; and under generated glue, whose handlers must not share anything either."""
    rpc.c13(ctx)
    rot = ctx.seed % 100
    drv, table = build(ctx, 'gen', rot, blame=False)
    if not drv:
        return
    fs = rpc.sharded(ctx, 'Glue', 'Glue', 'gl', env={'WHICH': 'gen', 'ROT': rot})
    if rpc.replay(ctx, drv, 'replay', fs, lambda f: [table], props=('C13',), what='glue', crash='C09') == 0:
        storms(ctx, 'gen', rot, 600 if ctx.thorough else 60, prop='C13', kinds=('enter', 'exit', 'ret'))
    else:
        ctx.log('the glue goes wrong by itself')
