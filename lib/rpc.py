"""The RPC server and client: behaviours of the specifications replayed into rfc1057."""
import concurrent.futures, os, re
from common import *

SHARDS = 8


def sharded(ctx, module, cfg, name, sim=None, env=None, shards=SHARDS, args=()):
    """Runs a specification in several single-worker TLC processes, each of which writes its own
    behaviours to <dir>/<shard>; sim: (behaviours per shard, depth) for random ones."""
    d = ctx.path('tr-' + name)
    os.makedirs(d, exist_ok=True)

    def go(i):
        a = list(args)
        if sim:
            a += ['-simulate', 'num=%d' % sim[0], '-depth', str(sim[1]), '-seed', str(ctx.seed * 1000 + i)]
        e = {'OUT': d, 'SHARD': i, 'SHARDS': shards}
        e.update(env or {})
        return ctx.tlc(module, env=e, workers=1, args=a, cfg=os.path.join(TLA, cfg + '.cfg'), mem='2500m')
    with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
        list(ex.map(go, range(shards)))
    fs = [p for p in (os.path.join(d, str(i)) for i in range(shards)) if os.path.exists(p)]
    if sim:
        ls = [l for f in fs for l in open(f)]
        if len(set(ls)) * 4 < len(ls):
            raise CheckError('%s draws the same behaviour over and over' % module)
    return fs


def driver(ctx, name):
    b = ctx.path('bin-' + name)
    if not os.path.exists(b):
        ok, msg = ctx.gobuild(ctx.module('drv', [name]), './' + name, b)
        if not ok:
            raise CheckError('the %s driver does not build:\n%s' % (name, msg[-3000:]))
    return b


def replay(ctx, drv, mode, files, extra=lambda f: [], props=(), env=None, timeout=600, what=None, crash=None):
    """Replays behaviours, one process per file; crash: the property a crash counts against."""
    e = ctx.goenv()
    e['VERIF_PROPS'] = ','.join(props)
    e.update(env or {})

    def go(f):
        return f, ctx.run([drv, mode] + extra(f) + [f], env=e, timeout=timeout)
    n = 0
    with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
        for f, r in ex.map(go, files):
            err = r.stderr.decode(errors='replace')
            last = None
            for l in r.stdout.decode(errors='replace').splitlines():
                try:
                    o = json.loads(l)
                except ValueError:
                    continue
                if 'stats' in o:
                    last = o['stats']
                    continue
                n += 1
                if o['prop'] in props:
                    ctx.violation('%s: %s' % (what or mode, o['msg']), {'observation': o, 'behaviour': line(f, o['case'])})
            if r.returncode not in (0,) or last is None:
                n += 1
                if r.returncode == 3 or not ('panic' in err or 'fatal error' in err or r.returncode == -999):
                    raise CheckError('driver %s %s failed (%s): %s' % (drv, mode, r.returncode, err[-2000:]))
                if (crash or props[0]) in props:
                    m = re.search(r'(panic|fatal error): .*', err)
                    ctx.violation('%s: the process %s' % (what or mode, 'hangs' if r.returncode == -999 else 'crashes: ' + (m.group(0) if m else '?')),
                                  {'stderr': err[-3000:], 'file': f})
                continue
            for k, v in last.items():
                ctx.count(k, v)
            ctx.traces += last.get('traces', 0)
    ctx.log('%s: %d observations' % (what or mode, n))
    return n


def line(f, i):
    with open(f) as fh:
        for k, l in enumerate(fh):
            if k == i:
                try:
                    return json.loads(json.loads(l))
                except (ValueError, TypeError):
                    return l[:2000]


# ------------------------------------------------------------- C11, C12, C14
def seq(ctx, props):
    fs = sharded(ctx, 'RpcServerSeq', 'RpcServerSeq', 'seq')
    ctx.sample({'server behaviour': line(fs[0], 1)})
    drv = driver(ctx, 'rpcsrv')
    replay(ctx, drv, 'seq', fs, props=props, what='server, one record', crash=props[0])
    fs = sharded(ctx, 'RpcServerSeq', 'RpcServerSeqRandom', 'seqr', sim=(2000 if ctx.thorough else 250, 17))
    replay(ctx, drv, 'seq', fs, props=props, what='server, random', crash=props[0])


def framing(ctx, props):
    fs = sharded(ctx, 'RpcFraming', 'RpcFraming', 'fr', args=[] if not ctx.thorough else [])
    drv = driver(ctx, 'rpcsrv')
    st = lambda f: [os.path.join(os.path.dirname(f), 'streams%s.json' % os.path.basename(f))]
    ctx.sample({'framing behaviour': line(fs[0], 5)})
    replay(ctx, drv, 'frame', fs, st, props=props, what='framing', crash='C14')
    fs = sharded(ctx, 'RpcFraming', 'RpcFramingRandom', 'frr', sim=(6000 if ctx.thorough else 800, 300))
    replay(ctx, drv, 'frame', fs, st, props=props, what='framing, random pieces', crash='C14')


def bigs(ctx, props):
    p = ctx.path('rpcbig.json')
    ctx.tlc('RpcBig', env={'OUT': p}, workers=1)
    replay(ctx, driver(ctx, 'rpcsrv'), 'big', [p], props=props, what='big records', crash='C14', timeout=300)


def c11(ctx):
    bigs(ctx, ('C11',))
    seq(ctx, ('C11',))


def c12(ctx):
    seq(ctx, ('C12',))


def c14(ctx):
    bigs(ctx, ('C14', 'C11'))
    framing(ctx, ('C14',))


# ------------------------------------------------------------------- C13
def server_model(ctx):
    """The server as it is built, in every interleaving; and, as a test of the specification itself,
    broken variants of it that must not pass."""
    for cfg in ('MCServer', 'MCServerBlocked'):
        ctx.tlc('MCServer', cfg=os.path.join(TLA, cfg + '.cfg'))
    for cfg in ('MCServerM1', 'MCServerM2', 'MCServerM3'):
        r = ctx.tlc('MCServer', cfg=os.path.join(TLA, cfg + '.cfg'), allow_violation=True, count=False)
        if r.rc not in (12, 13):
            raise CheckError('the specification does not tell the broken server %s from a good one (%s)' % (cfg, r.rc))
        ctx.count('broken server models rejected')


def schedules(ctx, props):
    drv = driver(ctx, 'rpcsrv')
    table = lambda f: [os.path.join(os.path.dirname(f), 'table.json')]
    runs = [('RpcSched2', 's2', None), ('RpcSchedR', 'sr', (4000 if ctx.thorough else 500, 80))]
    if ctx.thorough:
        runs.append(('RpcSched3', 's3', None))
    for cfg, name, sim in runs:
        fs = sharded(ctx, 'RpcSched', cfg, name, sim=sim)
        ctx.sample({'schedule': line(fs[0], 3)})
        replay(ctx, drv, 'sched', fs, table, props=props, what='schedule', crash='C13')


def crowds(ctx, props):
    fs = sharded(ctx, 'RpcCrowd', 'RpcCrowd', 'crowd', sim=(300 if ctx.thorough else 15, 200))
    ctx.sample({'crowd': line(fs[0], 0)})
    replay(ctx, driver(ctx, 'rpcsrv'), 'crowd', fs, lambda f: [os.path.join(os.path.dirname(f), 'table.json')],
           props=props, what='crowd', crash='C13')


def c13(ctx):
    server_model(ctx)
    crowds(ctx, ('C13',))
    schedules(ctx, ('C13',))


# --------------------------------------------------------------- C15, C16
def client(ctx, props):
    drv = driver(ctx, 'rpccli')
    p = ctx.path('rpcbig.json')
    ctx.tlc('RpcBig', env={'OUT': p}, workers=1)
    replay(ctx, drv, 'big', [p], props=props, what='client, big records', crash='C15', timeout=300)
    fs = sharded(ctx, 'RpcClient', 'RpcClient', 'cl')
    ctx.sample({'client behaviour': line(fs[0], 3)})
    replay(ctx, drv, 'replay', fs, props=props, what='client', crash='C15')
    fs = sharded(ctx, 'RpcClient', 'RpcClientRandom', 'clr', sim=(600 if ctx.thorough else 60, 30))
    replay(ctx, drv, 'replay', fs, props=props, what='client, random', crash='C15')


def c15(ctx):
    client(ctx, ('C15',))


def c16(ctx):
    client(ctx, ('C16',))
