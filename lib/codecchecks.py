"""C01-C07 and C10: what the observations of the codec replays say of each property."""
import codec
from common import *

KINDS = {
    'C01': {'enc', 'panic-enc'},
    'C02': {'dec'},
    'C03': {'prefix', 'mut-short', 'panic-dec', 'alloc', 'crash'},
    'C04': {'bound-enc', 'bound-dec', 'bound-accept'},
    'C05': {'sticky', 'report'},
    'C06': {'alias'},
    'C07': {'shape', 'const', 'enc', 'dec', 'panic-enc', 'panic-dec', 'bound-enc', 'bound-dec', 'crash'},
    'C10': {'shape', 'const', 'enc', 'dec', 'panic-enc', 'panic-dec', 'bound-enc', 'bound-dec', 'crash'},
}
# how many values per type get mutated encodings, and words per position
MUT = {'C01': (0, 0), 'C02': (2, 2), 'C03': (3, 4), 'C04': (1, 4), 'C05': (2, 3), 'C06': (0, 0), 'C07': (1, 2), 'C10': (1, 3)}


def judge(ctx, st, obs, kinds):
    for o in obs:
        k = o['kind']
        if o['ty'].startswith('us') and k in ('bound-enc', 'bound-dec', 'mut-short'):
            k = 'report'      # the only thing that can go wrong in these is the user's own error
        if o['set'] == 'big' and 'bound-accept' == k and ctx.prop in ('C01', 'C02'):
            k = 'enc' if ctx.prop == 'C01' else 'dec'
        if k in kinds:
            ctx.violation('%s: type %s: %s' % (o['set'], o['ty'], o['msg']),
                          {'observation': o, 'case': codec.case_of(st, o['id']) if st and st.cases else None})


def random_forms(ctx, groups, per, salt=0):
    p = ctx.path('random%d.json' % salt)
    ctx.tlc('XdrRandom', env={'OUT': p, 'SEED': ctx.seed % 100000 + 1000 * salt, 'NGROUPS': groups, 'PERGROUP': per}, workers=1, count=False)
    return json.load(open(p))


def generated(ctx, nvariants, kinds, compile_matters):
    """Replays enumerated and random forms through generated code."""
    mv, mw = MUT[ctx.prop]
    if ctx.thorough:
        mv, mw = mv * 3, min(mw * 3, 11)
    rounds = [('g', codec.forms(ctx), nvariants), ('r', random_forms(ctx, 12 if ctx.thorough else 6, 15), 1)]
    if ctx.thorough:
        rounds += [('r%d' % i, random_forms(ctx, 12, 15, i), 1) for i in range(2, 6)]
    for prefix, fm, nv in rounds:
        sets, G = codec.gen_sets(ctx, nv, prefix, fm)
        ctx.log('generated code built: %s' % prefix)
        ctx.count('definitions compiled', sum(len(s.names) for s in sets))
        if compile_matters:
            for names, src, msg, var in G.failed:
                ctx.violation('%s: %s (options %s)' % (', '.join(names[:4]), msg.replace('\n', ' ')[:300], var), {'definitions': names, 'source': src})
            for s in sets:
                for m in s.missing:
                    ctx.violation('generated code does not declare ' + m, {'missing': m})
        for s in sets:
            codec.make_cases(ctx, s, mv, mw, depth=3 if prefix == 'g' else 2)
            obs = codec.run_set(ctx, s)
            ctx.log('%s: %d observations' % (s.name, len(obs)))
            judge(ctx, s, obs, kinds)


def bulk(ctx, kinds, compile_matters=False):
    obs, sets, G = codec.run_bulk(ctx)
    if compile_matters:
        for names, src, msg, var in G.failed:
            ctx.violation('%s: %s (options %s)' % (', '.join(names[:4]), msg.replace('\n', ' ')[:300], var), {'definitions': names, 'source': src})
        for s in sets:
            for m in s.missing:
                ctx.violation('generated code does not declare ' + m, {'missing': m})
    judge(ctx, None, obs, kinds)


def library(ctx, kinds):
    mv, mw = MUT[ctx.prop]
    if ctx.thorough:
        mv, mw = mv * 10, 11 if mw else 0
    st = codec.lib_set(ctx)
    codec.make_cases(ctx, st, mv, mw)
    judge(ctx, st, codec.run_set(ctx, st), kinds)
    judge(ctx, None, codec.run_big(ctx, st), kinds)
    judge(ctx, None, codec.run_stream(ctx, st), kinds)


def shippedpkgs(ctx, kinds, names_matter, regen=False):
    mv, mw = MUT[ctx.prop]
    if ctx.thorough:
        mv, mw = mv * 4, 11 if mw else 0
    sets, missing = codec.shipped_sets(ctx, regen)
    if names_matter:
        for m in missing:
            ctx.violation(m, {'missing': m})
    for s in sets:
        codec.make_cases(ctx, s, mv, mw)
        obs = codec.run_set(ctx, s)
        ctx.log('%s: %d observations' % (s.name, len(obs)))
        judge(ctx, s, obs, kinds)


def codec_check(ctx):
    kinds = KINDS[ctx.prop]
    if ctx.prop == 'C10':
        shippedpkgs(ctx, kinds, True)
        shippedpkgs(ctx, kinds, True, True)
        return
    if ctx.prop == 'C07':
        generated(ctx, 6 if ctx.thorough else 2, kinds, True)
        bulk(ctx, kinds, True)
        return
    library(ctx, kinds)
    if ctx.prop == 'C03':
        deep_lists(ctx)
    shippedpkgs(ctx, kinds, False)
    generated(ctx, 2 if ctx.thorough else 1, kinds, False)
    if ctx.prop != 'C06':
        bulk(ctx, kinds)


def deep_lists(ctx):
    """Long chains of optional data.  A list of n elements is a valid encoding, so it must decode (C02) and
    must not crash (C03).  Decoding recurses per element: beyond some millions the Go stack limit is hit,
    which is listed in known-findings.txt."""
    mod = ctx.module('drv', ['codec', 'deep'])
    b = ctx.path('bin-deep')
    ok, msg = ctx.gobuild(mod, './deep', b)
    if not ok:
        raise CheckError('deep driver does not build: ' + msg[-1500:])
    listed = any(l.startswith('finding: property=C03 deep-optional-list') for l in load_known())
    for ty in ('groups', 'pmap'):
        for n, known in ((1000, False), (1000000, False), (13000000, listed)):
            r = ctx.run([b, ty, str(n)], timeout=300)
            out = r.stdout.decode(errors='replace').strip()
            err = r.stderr.decode(errors='replace')
            ctx.count('long lists')
            if r.returncode == 0 and (out == 'DECODED %d' % n or out.startswith('ERROR')):
                if n <= 1000000 and out.startswith('ERROR'):
                    ctx.violation('a list of %d elements (%s) does not decode: %s' % (n, ty, out), {'type': ty, 'n': n})
                continue
            overflow = 'stack exceeds' in err or 'stack overflow' in err
            if r.returncode != 0 and not overflow:
                raise CheckError('deep driver failed: ' + err[-1500:])
            if overflow and known:
                ctx.known.append('decoding a list (optional data) of %d elements (%s) overflows the Go stack and ends the process' % (n, ty))
            elif overflow:
                ctx.violation('decoding a list of %d elements (%s) overflows the stack' % (n, ty), {'type': ty, 'n': n})
            else:
                ctx.violation('decoding a list of %d elements (%s): %s' % (n, ty, out), {'type': ty, 'n': n})
