#!/usr/bin/env python3
"""Bootstrap of the RFC schema modules: prints a .x file as TLA+ definitions.

Used once to write tla/SunRpc.tla and tla/Nfs3.tla, which were then reviewed
against RFC 1057 and RFC 1813.  No check runs this.
"""
import re, sys

def toks(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    return re.findall(r'[A-Za-z_][A-Za-z_0-9]*|0[xX][0-9a-fA-F]+|[0-9]+|[-=;<>\[\]{},:*()]', s)

class P:
    def __init__(s, t): s.t, s.i, s.consts = t, 0, {}
    def pk(s): return s.t[s.i] if s.i < len(s.t) else None
    def nx(s): s.i += 1; return s.t[s.i-1]
    def ex(s, x):
        y = s.nx()
        assert x == y, (x, y, s.t[s.i-5:s.i+5])
    def num(s):
        x = s.nx()
        return s.consts[x] if x in s.consts else int(x, 0)
    def typespec(s):
        x = s.nx()
        if x == 'unsigned': return {'int': 'TUint', 'hyper': 'TUhyper'}[s.nx()]
        if x in ('int', 'hyper', 'bool'): return {'int': 'TInt', 'hyper': 'THyper', 'bool': 'TBool'}[x]
        if x == 'struct': return s.struct()
        if x == 'union': return s.union()
        return 'TRef("%s")' % x
    def decl(s):
        x = s.pk()
        if x == 'void': s.nx(); return ('', 'TVoid')
        if x in ('opaque', 'string'):
            s.nx(); n = s.nx()
            if s.pk() == '[':
                s.nx(); k = s.num(); s.ex(']'); return (n, 'TFixed(%d)' % k)
            s.ex('<'); k = -1
            if s.pk() != '>': k = s.num()
            s.ex('>'); return (n, '%s(%d)' % ('TOpaque' if x == 'opaque' else 'TString', k))
        t = s.typespec()
        if s.pk() == '*': s.nx(); return (s.nx(), 'TOpt(%s)' % t)
        n = s.nx()
        if s.pk() == '[':
            s.nx(); k = s.num(); s.ex(']'); return (n, 'TArray(%d, %s)' % (k, t))
        if s.pk() == '<':
            s.nx(); k = -1
            if s.pk() != '>': k = s.num()
            s.ex('>'); return (n, 'TVarray(%d, %s)' % (k, t))
        return (n, t)
    def struct(s):
        s.ex('{'); f = []
        while s.pk() != '}': f.append(s.decl()); s.ex(';')
        s.ex('}'); return 'TStruct(<<%s>>)' % ', '.join('Fld("%s", %s)' % x for x in f)
    def val(s, d):
        x = s.nx()
        if x in ('TRUE', 'FALSE'): return x
        return 'U32(%d)' % (s.consts[x] if x in s.consts else int(x, 0))
    def union(s):
        s.ex('switch'); s.ex('('); d = s.decl(); s.ex(')'); s.ex('{'); arms = []; de = '<<>>'
        while s.pk() != '}':
            if s.pk() == 'default':
                s.nx(); s.ex(':'); de = '<<Fld("%s", %s)>>' % s.decl(); s.ex(';'); continue
            cs = []
            while s.pk() == 'case': s.nx(); cs.append(s.val(d)); s.ex(':')
            n, t = s.decl(); s.ex(';')
            arms.append('Arm(<<%s>>, "%s", %s)' % (', '.join(cs), n, t))
        s.ex('}')
        return 'TUnion(Fld("%s", %s), <<%s>>, %s)' % (d[0], d[1], ', '.join(arms), de)

def main(name, path):
    p = P(toks(open(path).read())); defs, consts, progs = [], [], []
    # enum values may be used before their definition
    for m in re.finditer(r'([A-Za-z_0-9]+)\s*=\s*(0x[0-9a-fA-F]+|[0-9]+)\s*[,;}\s]', re.sub(r'/\*.*?\*/', ' ', open(path).read(), flags=re.S)):
        p.consts[m.group(1)] = int(m.group(2), 0)
    while p.pk():
        x = p.nx()
        if x == 'const':
            n = p.nx(); p.ex('='); v = p.num(); p.ex(';'); consts.append((n, v))
        elif x == 'typedef': defs.append(p.decl()); p.ex(';')
        elif x == 'enum':
            n = p.nx(); p.ex('{'); it = []
            while True:
                a = p.nx(); p.ex('='); it.append((a, p.num()))
                if p.nx() == '}': break
            p.ex(';'); defs.append((n, 'TEnum(<<%s>>)' % ', '.join('It("%s", U32(%d))' % y for y in it)))
        elif x == 'struct': n = p.nx(); defs.append((n, p.struct())); p.ex(';')
        elif x == 'union': n = p.nx(); defs.append((n, p.union())); p.ex(';')
        elif x == 'program':
            n = p.nx(); p.ex('{'); vs = []
            while p.pk() != '}':
                p.ex('version'); vn = p.nx(); p.ex('{'); cs = []
                while p.pk() != '}':
                    def ts():
                        if p.pk() == 'void': p.nx(); return 'TVoid'
                        return p.typespec()
                    r = ts(); cn = p.nx(); p.ex('('); a = ts(); p.ex(')'); p.ex('='); cv = p.num(); p.ex(';')
                    cs.append('Proc("%s", %d, %s, %s)' % (cn, cv, a, r))
                p.ex('}'); p.ex('='); vv = p.num(); p.ex(';')
                vs.append('[n |-> "%s", v |-> %d, procs |-> <<\n       %s>>]' % (vn, vv, ',\n       '.join(cs)))
            p.ex('}'); p.ex('='); pv = p.num(); p.ex(';')
            progs.append('[n |-> "%s", v |-> %d, vers |-> <<\n     %s>>]' % (n, pv, ',\n     '.join(vs)))
    print('%sConsts == <<\n  %s>>\n' % (name, ',\n  '.join('[n |-> "%s", v |-> %d]' % c for c in consts)))
    print('%sDefs == <<\n  %s>>\n' % (name, ',\n  '.join('Fld("%s", %s)' % d for d in defs)))
    print('%sProgs == <<\n  %s>>' % (name, ',\n  '.join(progs)))
main(sys.argv[1], sys.argv[2])
