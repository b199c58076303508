"""Running functions of the crate under verification."""
import re
from engine import *
from loops import fresh_at
import stdmodel


class VC:
    def __init__(self, prog, models, deadline=None):
        self.prog = prog
        self.models = models
        self.index = {}
        for k in prog.bodies:
            self.index.setdefault(strip(k), []).append(k)
        self.deadline = deadline

    def engine(self, spec=None):
        e = Engine([self.prog, self.models], stdmodel.N, spec=spec)
        e.deadline = self.deadline
        return e

    def find(self, name):
        """Body by its generic-free path (or a suffix of it)."""
        r = self.index.get(name)
        if r is None:
            r = [k for n, ks in self.index.items() if n.endswith('::' + name) or n == name for k in ks]
        if len(r) != 1:
            raise Unsupported('function %s: %d candidates' % (name, len(r)))
        return self.prog.bodies[r[0]]

    def trait_impl_in(self, mod, trait, method):
        for im in self.prog.impls:
            t = self.prog.T[im['self']]
            if t[0] == 'adt' and mod in t[1] and im['trait'].split('::')[-1] == trait:
                for nm, p in im['items']:
                    if nm == method:
                        return self.prog.bodies[p]
        raise Unsupported('impl %s in %s' % (trait, mod))

    def trait_impl(self, ty, trait, method):
        for im in self.prog.impls:
            t = self.prog.T[im['self']]
            if t[0] == 'adt' and t[1].split('::')[-1] == ty and im['trait'].split('::')[-1] == trait:
                for nm, p in im['items']:
                    if nm == method:
                        return self.prog.bodies[p]
        raise Unsupported('impl %s for %s' % (trait, ty))


def strip(k):
    return strip_generics(k)


def cell(st, v):
    c = new_cell()
    st.mem[c] = v
    return Ref(c)


def call(eng, st, body, args):
    """Run body from st; returns the list of returning states (panics in eng.panics)."""
    s = st.copy()
    eng.push(s, body, args, None, None, {})
    return eng.run(s, 0)
