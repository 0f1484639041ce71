"""C08: the generator as a program that reads texts and writes files."""
import rpc
from common import *


def c08(ctx):
    ctx.tlc('MCGen', workers=1)
    for cfg in ('MCGenE', 'MCGenS'):
        r = ctx.tlc('MCGen', cfg=os.path.join(TLA, cfg + '.cfg'), workers=1, allow_violation=True, count=False)
        if r.rc not in (12, 13):
            raise CheckError('the specification does not tell the broken generator %s from a good one (%s)' % (cfg, r.rc))
        ctx.count('broken generator models rejected')
    drv = rpc.driver(ctx, 'gen')
    gen = ctx.generator()

    def where(f):
        d = f + '.scratch'
        os.makedirs(d, exist_ok=True)
        return [gen, d]
    env = {'SALT': ctx.seed % 1000}
    fs = rpc.sharded(ctx, 'GenFiles', 'GenFiles', 'gf', env=env)
    ctx.sample({'history of files': rpc.line(fs[0], 9)})
    rpc.replay(ctx, drv, 'files', fs, lambda f: where(f) + [os.path.join(os.path.dirname(f), 'texts' + os.path.basename(f))],
               props=('C08',), what='files')
    for k in range(4 if ctx.thorough else 1):
        fs = rpc.sharded(ctx, 'GrammarCases', 'GrammarCases', 'gc%d' % k, env={'SALT': ctx.seed % 1000 + k})
        ctx.sample({'text': rpc.line(fs[0], 20 + k)})
        rpc.replay(ctx, drv, 'texts', fs, where, props=('C08',), what='texts')
    fs = rpc.sharded(ctx, 'GrammarCases', 'GrammarCasesRandom', 'gcr', env=env, sim=(5000 if ctx.thorough else 500, 400))
    ctx.sample({'random text': rpc.line(fs[0], 3)})
    rpc.replay(ctx, drv, 'texts', fs, where, props=('C08',), what='random texts')
