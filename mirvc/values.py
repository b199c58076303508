"""Run-time values of the verifier.  All values are immutable; memory maps cells to values."""
from terms import *


class Agg:
    """tuple ('t',), struct/enum variant ('a', path, variant), closure ('c', id)."""
    __slots__ = ('tag', 'f', '_h')

    def __init__(self, tag, f):
        self.tag = tag
        self.f = f
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.tag == o.tag and self.f == o.f)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.f))
        return self._h

    def __repr__(self):
        t = self.tag
        n = '' if t[0] == 't' else (t[1].split('::')[-1] + ('#%d' % t[2] if t[0] == 'a' else ''))
        return '%s(%s)' % (n, ', '.join(map(repr, self.f)))


class Seq:
    """A vector/array/slice: pieces ('c', (values...)) or ('s', count, var, template)."""
    __slots__ = ('p', '_h')

    def __init__(self, p):
        self.p = p
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.p == o.p)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.p)
        return self._h

    def __repr__(self):
        s = []
        for p in self.p:
            if p[0] == 'c':
                s.append(', '.join(map(repr, p[1])))
            else:
                s.append('%r | %s<%r' % (p[3], p[2], p[1]))
        return '[%s]' % '; '.join(s)

    def concrete(self):
        """The tuple of items if the length is concrete, else None."""
        p = self.p
        if not p:
            return ()
        if len(p) == 1 and p[0][0] == 'c':
            return p[0][1]
        return None

    def length(self):
        n = 0
        for p in self.p:
            n = iadd(n, len(p[1]) if p[0] == 'c' else p[1])
        return n


def cseq(items):
    items = tuple(items)
    return Seq((('c', items),)) if items else Seq(())


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return '&%s%s' % (self.cell, ''.join('.' + str(x) for x in self.path))


class Ptr:
    """Box / Arc / Rc: owning pointer to a heap cell."""
    __slots__ = ('kind', 'cell')

    def __init__(self, kind, cell):
        self.kind = kind
        self.cell = cell

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ptr', self.cell))

    def __repr__(self):
        return '%s->%s' % (self.kind, self.cell)


class FnV:
    __slots__ = ('path', 'args', 'info', 'prog')

    def __init__(self, path, args, info, prog):
        self.path = path
        self.args = args
        self.info = info
        self.prog = prog

    def __eq__(self, o):
        return isinstance(o, FnV) and self.path == o.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return 'fn ' + self.path


class Opaque:
    """Uninterpreted value: op applied to args (hashable)."""
    __slots__ = ('op', 'args')

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.op, self.args))

    def __repr__(self):
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))


UNIT = Agg(('t',), ())
ADDR = Opaque('addr')
OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = Agg(('a', OPT, 0), ())


def some(v):
    return Agg(('a', OPT, 1), (v,))


def tup(*v):
    return Agg(('t',), tuple(v))


def vsubst(v, m):
    """Substitute integer variables throughout a value."""
    t = type(v)
    if t is Poly:
        return v.subst(m)
    if t is I:
        return isubst(v, m)
    if t is B:
        return bsubst(v, m)
    if t is Agg:
        f = tuple(vsubst(x, m) for x in v.f)
        return v if all(a is b for a, b in zip(f, v.f)) else Agg(v.tag, f)
    if t is Seq:
        ps = []
        hit = False
        for p in v.p:
            if p[0] == 'c':
                f = tuple(vsubst(x, m) for x in p[1])
                if all(a is b for a, b in zip(f, p[1])):
                    ps.append(p)
                else:
                    ps.append(('c', f))
                    hit = True
            else:
                c = isubst(p[1], m)
                tm = vsubst(p[3], {k: x for k, x in m.items() if k != p[2]})
                if c is p[1] and tm is p[3]:
                    ps.append(p)
                else:
                    ps.append(('s', c, p[2], tm))
                    hit = True
        return Seq(norm_pieces(ps)) if hit else v
    if t is Ref:
        np = path_subst(v.path, m)
        return v if np is v.path else Ref(v.cell, np)
    if t is Opaque:
        a = tuple(vsubst(x, m) for x in v.args)
        return v if all(x is y for x, y in zip(a, v.args)) else Opaque(v.op, *a)
    return v


def path_subst(path, m):
    hit = False
    o = []
    for s in path:
        if s[0] == 'i':
            x = isubst(s[1], m)
            if x is not s[1]:
                s = ('i', x)
                hit = True
        elif s[0] == 'w':
            x, y = isubst(s[1], m), isubst(s[2], m)
            if x is not s[1] or y is not s[2]:
                s = ('w', x, y)
                hit = True
        o.append(s)
    return tuple(o) if hit else path


def norm_pieces(ps):
    o = []
    for p in ps:
        if p[0] == 'c':
            if not p[1]:
                continue
            if o and o[-1][0] == 'c':
                o[-1] = ('c', o[-1][1] + p[1])
                continue
        else:
            if type(p[1]) is int:
                if p[1] <= 0:
                    continue
                if p[1] <= 64:
                    items = tuple(vsubst(p[3], {p[2]: j}) for j in range(p[1]))
                    if o and o[-1][0] == 'c':
                        o[-1] = ('c', o[-1][1] + items)
                    else:
                        o.append(('c', items))
                    continue
        o.append(p)
    return tuple(o)


def vrefs(v, acc):
    """Cells referenced by a value."""
    t = type(v)
    if t is Ref or t is Ptr:
        acc.add(v.cell)
    elif t is Agg:
        for x in v.f:
            vrefs(x, acc)
    elif t is Seq:
        for p in v.p:
            if p[0] == 'c':
                for x in p[1]:
                    if type(x) is Poly:
                        break
                    vrefs(x, acc)
            else:
                vrefs(p[3], acc)
