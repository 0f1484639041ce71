"""C18: the example programs, against services that follow ExClient and ExServer."""
import rpc
from common import *

# Connections to port 111 - of anything built with this overlay - go to $VERIF_PMAP on the loopback.
ANCHOR = 'func (sd *sysDialer) dialTCP(ctx context.Context, laddr, raddr *TCPAddr) (*TCPConn, error) {\n'
HOOK = '''	if raddr != nil && raddr.Port == 111 {
		n := 0
		s, _ := syscall.Getenv("VERIF_PMAP")
		for i := 0; i < len(s); i++ {
			n = n*10 + int(s[i]-'0')
		}
		raddr = &TCPAddr{IP: IPv4(127, 0, 0, 1), Port: n}
	}
'''


def program(ctx, name):
    b = ctx.path('bin-ex-' + name)
    r = ctx.run(['go', 'env', 'GOROOT'])
    std = os.path.join(r.stdout.decode().strip(), 'src', 'net', 'tcpsock_posix.go')
    src = open(std).read()
    if ANCHOR not in src or '"syscall"' not in src:
        raise CheckError('the standard library is not the one this was written for')
    with open(ctx.path('tcpsock_posix.go'), 'w') as f:
        f.write(src.replace(ANCHOR, ANCHOR + HOOK))
    with open(ctx.path('overlay.json'), 'w') as f:
        json.dump({'Replace': {std: ctx.path('tcpsock_posix.go')}}, f)
    r = ctx.run(['go', 'build', '-overlay', ctx.path('overlay.json'), '-o', b, './example/' + name], cwd=ctx.repo(), timeout=600)
    if r.returncode != 0:
        ctx.violation('example/%s does not build: %s' % (name, r.stderr.decode(errors='replace').replace('\n', ' ')[:400]), {'stderr': r.stderr.decode(errors='replace')[-3000:]})
    return b


def c18(ctx):
    progs = {n: program(ctx, n) for n in ('client', 'server')}
    drv = rpc.driver(ctx, 'examples')
    for name, mod in (('client', 'ExClient'), ('server', 'ExServer')):
        bin = lambda f, n=name: [progs[n]]
        rots = range(ctx.seed % 14, ctx.seed % 14 + (14 if ctx.thorough and name == 'client' else 1))
        for rot in rots:
            fs = rpc.sharded(ctx, mod, mod, 'ex%s-%d' % (name, rot), env={'ROT': rot})
            ctx.sample({'conversation of the example ' + name: rpc.line(fs[0], 1)})
            rpc.replay(ctx, drv, name, fs, bin, props=('C18',), what='example ' + name)
        fs = rpc.sharded(ctx, mod, mod + 'Random', 'exr' + name, env={'ROT': 0}, sim=(1500 if ctx.thorough else 100, 25))
        rpc.replay(ctx, drv, name, fs, bin, props=('C18',), what='example %s, random' % name)
