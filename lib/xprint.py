"""Prints the type records of Xdr.tla as XDR source text."""


def size(t, key):
    if 's' in t:
        return t['s']
    return '' if t[key] < 0 else str(t[key])


def typespec(t):
    k = t['k']
    s = {'int': 'int', 'uint': 'unsigned int', 'hyper': 'hyper', 'uhyper': 'unsigned hyper', 'bool': 'bool'}.get(k)
    if s:
        return s
    if k == 'ref':
        return t['n']
    if k == 'struct':
        return 'struct {\n' + fields(t) + '}'
    if k == 'union':
        return 'union ' + union(t)
    raise ValueError('no typespec for ' + k)


def decl(n, t):
    k = t['k']
    if k == 'void':
        return 'void'
    if k == 'fixed':
        return 'opaque %s[%s]' % (n, size(t, 'n'))
    if k in ('opaque', 'string'):
        return '%s %s<%s>' % (k, n, size(t, 'max'))
    if k == 'opt':
        return '%s *%s' % (typespec(t['t']), n)
    if k == 'array':
        return '%s %s[%s]' % (typespec(t['t']), n, size(t, 'n'))
    if k == 'varray':
        return '%s %s<%s>' % (typespec(t['t']), n, size(t, 'max'))
    return '%s %s' % (typespec(t), n)


def fields(t):
    return ''.join('  %s;\n' % decl(f['n'], f['t']) for f in t['f'])


def label(c, a, i):
    if 'ls' in a:
        return a['ls'][i]
    if c is True:
        return 'TRUE'
    if c is False:
        return 'FALSE'
    return str(int.from_bytes(bytes(c), 'big'))


def union(t):
    s = 'switch (%s) {\n' % decl(t['d']['n'], t['d']['t'])
    for a in t['arms']:
        for i, c in enumerate(a['cs']):
            s += ' case %s:\n' % label(c, a, i)
        s += '  %s;\n' % decl(a['n'], a['t'])
    for f in t['def']:
        s += ' default:\n  %s;\n' % decl(f['n'], f['t'])
    return s + '}'


def define(n, t):
    k = t['k']
    if k == 'enum':
        return 'enum %s {\n%s };\n' % (n, ',\n'.join(
            '  %s = %s' % (it['n'], it.get('s', str(int.from_bytes(bytes(it['v']), 'big')))) for it in t['items']))
    if k == 'struct' and not t.get('td'):
        return 'struct %s {\n%s};\n' % (n, fields(t))
    if k == 'union' and not t.get('td'):
        return 'union %s %s;\n' % (n, union(t))
    return 'typedef %s;\n' % decl(n, t)


def const(c):
    return 'const %s = %s;\n' % (c['n'], c.get('s', str(c['v'])))


def program(p):
    def ts(t):
        return 'void' if t['k'] == 'void' else typespec(t)
    s = 'program %s {\n' % p['n']
    for v in p['vers']:
        s += ' version %s {\n' % v['n']
        for c in v['procs']:
            s += '  %s %s(%s) = %s;\n' % (ts(c['r']), c['n'], ts(c['a']), c.get('s', str(c['v'])))
        s += ' } = %s;\n' % v.get('s', str(v['v']))
    return s + '} = %s;\n' % p.get('s', str(p['v']))


def goname(s):
    return {'TRUE': 'true', 'FALSE': 'false'}.get(s, s[:1].upper() + s[1:])
