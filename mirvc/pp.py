"""Pretty-printer for the MIR JSON written by mirdump (for debugging)."""
import json, sys
def pty(T, i, d=0):
    t = T[i]
    k = t[0]
    if d > 4: return '..'
    if k == 'adt': return t[1].split('::')[-1] + ('<%s>' % ','.join(pty(T, a, d+1) if isinstance(a, int) else a for a in t[2]) if t[2] else '')
    if k == 'ref': return '&' + ('mut ' if t[2] else '') + pty(T, t[1], d+1)
    if k == 'ptr': return '*' + pty(T, t[1], d+1)
    if k == 'slice': return '[%s]' % pty(T, t[1], d+1)
    if k == 'array': return '[%s;%s]' % (pty(T, t[1], d+1), t[2])
    if k == 'tuple': return '(%s)' % ','.join(pty(T, a, d+1) for a in t[1])
    if k == 'fndef': return 'fn ' + t[1]
    return ' '.join(str(x) for x in t[1:2]) or k
def pl(p):
    s = '_%d' % p[0]
    for e in p[1]:
        if e[0] == 'd': s = '(*%s)' % s
        elif e[0] == 'f': s += '.%d' % e[1]
        elif e[0] == 'i': s += '[_%d]' % e[1]
        elif e[0] == 'v': s += ' as v%d' % e[1]
        else: s += str(e)
    return s
def op(T, o):
    if o[0] in 'cm': return ('move ' if o[0] == 'm' else '') + pl(o[1])
    if o[0] == 'k':
        c = o[1]
        if c['k'] == 'fn': return T[c['ty']][1]
        return 'const ' + str({k: v for k, v in c.items() if k != 'ty'}) + ':' + pty(T, c['ty'])
    return str(o)
def rv(T, r):
    if r[0] == 'use': return op(T, r[1])
    if r[0] == 'ref': return '&' + ('mut ' if r[1] else '') + pl(r[2])
    if r[0] == 'addr': return '&raw ' + pl(r[1])
    if r[0] == 'agg': return str(r[1]) + '(' + ', '.join(op(T, x) for x in r[2]) + ')'
    if r[0] == 'bin': return '%s(%s, %s)' % (r[1], op(T, r[2]), op(T, r[3]))
    if r[0] == 'un': return '%s(%s)' % (r[1], op(T, r[2]))
    if r[0] == 'cast': return '%s as %s (%s)' % (op(T, r[2]), pty(T, r[3]), r[1])
    if r[0] == 'discr': return 'discr(%s)' % pl(r[1])
    return str(r)
def show(d, b):
    T = d['types']
    print('fn', b['id'], b['span'], 'argc', b['argc'])
    for i, t in enumerate(b['locals']): print('   let _%d: %s %s' % (i, pty(T, t), [n for n, p in b['names'] if p == [i, []]] or ''))
    for i, bb in enumerate(b['blocks']):
        if bb.get('cl'): continue
        print('  bb%d:' % i)
        for s in bb['s']:
            print('     ', pl(s[1]), '=', rv(T, s[2]) if s[0] == '=' else s)
        t = bb['t']
        if t[0] == 'call': print('     ', pl(t[3]), '= call', op(T, t[1]), '(', ', '.join(op(T, a) for a in t[2]), ') ->', t[4])
        elif t[0] == 'switch': print('      switch', op(T, t[1]), t[2], 'else', t[3])
        elif t[0] == 'assert': print('      assert', op(T, t[1]), t[2:])
        else: print('     ', t)
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if sys.argv[2] in b['id'] and 'promoted' not in b['id']: show(d, b)
