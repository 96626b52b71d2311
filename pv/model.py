"""The library's model catalogue: modules, public functions, roles of parameters, memoised abstract values."""
import json, os
from . import terms as t
from .interp import Interp, Give, Dead, Ref, Struct
from .terms import num

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROLES = os.path.join(VERIF, 'pv', 'roles.json')

KB = t.sym('kB')
HP = t.sym('hP')
CONSTS = {'crate::physics::BOLTZMANN_CONSTANT': KB, 'crate::physics::PLANCK_CONSTANT': HP}

INT_ROLES = {'number_of_links', 'method'}

# dimensions in (length, energy, temperature, time)
DIM = {
    'number_of_links': (0, 0, 0, 0), 'link_length': (1, 0, 0, 0), 'hinge_mass': (-2, 1, 0, 2), 'temperature': (0, 0, 1, 0),
    'force': (-1, 1, 0, 0), 'end_to_end_length': (1, 0, 0, 0), 'end_to_end_length_per_link': (1, 0, 0, 0),
    'persistance_length': (1, 0, 0, 0), 'link_stiffness': (-2, 1, 0, 0), 'link_energy': (0, 1, 0, 0), 'well_width': (1, 0, 0, 0),
    'potential_distance': (1, 0, 0, 0), 'potential_stiffness': (-2, 1, 0, 0),
}
CONST_DIM = {KB: (0, 1, -1, 0), HP: (0, 1, 0, 1)}


def out_dim(name):
    if name.startswith('nondimensional_'):
        return (0, 0, 0, 0)
    if 'free_energy' in name:
        return (0, 1, 0, 0)
    if name == 'force':
        return (-1, 1, 0, 0)
    if name.startswith('end_to_end_length'):
        return (1, 0, 0, 0)
    if name == 'equilibrium_distribution':
        return (-3, 0, 0, 0)
    if name == 'equilibrium_radial_distribution':
        return (-1, 0, 0, 0)
    return None


class Model(object):
    def __init__(self, ctx, consts=None):
        self.ctx = ctx
        self.consts = dict(CONSTS, **(consts or {}))
        self.roles = json.load(open(ROLES)) if os.path.exists(ROLES) else {}
        self.mods = {}
        known = {p.rsplit('::', 1)[1] for p in self.roles}
        for b in ctx.prog.allbodies:
            if b['kind'] == 'Fn' and b['path'].startswith('crate::physics') and '::py::' not in b['path'] and '::ex::' not in b['path'] \
                    and '::test::' not in b['path'] and not b.get('no_mangle') and '::{' not in b['path']:
                m, n = b['path'].rsplit('::', 1)
                # the interface: private helpers, and public functions that are none of the library's quantities, are judged through the functions that call them
                if not m.endswith('monte_carlo') and (b['path'] in self.roles or b['vis'] == 'Public' and n in known):
                    self.mods.setdefault(m, {})[n] = b
        self._terms = {}

    def role(self, path):
        """parameter roles by position (the reference signature), by name for functions it does not know"""
        b = self.ctx.bodies[path]
        r = self.roles.get(path)
        if r is not None and len(r) == len(b['in']):
            return r
        return [p.get('n', '_') for p in b['ps']]

    def sym(self, role):
        return t.sym(role, 'int' if role in INT_ROLES else 'pos')

    def fn(self, path):
        """abstract value of a library function in the symbols of its parameter roles"""
        v = self._terms.get(path)
        if v is None:
            b = self.ctx.bodies.get(path)
            if b is None:
                return None
            v, I = self.ctx.run(path, self.args(path), const_syms=self.consts)
            if not isinstance(v, t.T):
                v = t.top('non-scalar value')
            self._terms[path] = v
        return v

    def args(self, path):
        return [self.sym(r) for r in self.role(path)]

    def has(self, path):
        return path in self.ctx.bodies

    def at(self, path, over):
        """value of path with the named roles replaced"""
        v = self.fn(path)
        return t.subst(v, {self.sym(k): x for k, x in over.items()})

    # ---------------------------------------------------------------- nondimensionalisation
    def nondim(self, role, roles):
        """a nondimensional parameter in terms of dimensional ones available in roles (None if impossible)"""
        S = self.sym
        kT = t.mul(KB, S('temperature'))
        need = {
            'nondimensional_force': (['force', 'link_length', 'temperature'], lambda: t.div(t.mul(S('force'), S('link_length')), kT)),
            'nondimensional_link_stiffness': (['link_stiffness', 'link_length', 'temperature'], lambda: t.div(t.mul(S('link_stiffness'), t.power(S('link_length'), num(2))), kT)),
            'nondimensional_link_energy': (['link_energy', 'temperature'], lambda: t.div(S('link_energy'), kT)),
            'nondimensional_persistance_length': (['persistance_length', 'number_of_links', 'link_length'], lambda: t.div(S('persistance_length'), t.mul(S('number_of_links'), S('link_length')))),
            'nondimensional_potential_distance': (['potential_distance', 'number_of_links', 'link_length'], lambda: t.div(S('potential_distance'), t.mul(S('number_of_links'), S('link_length')))),
            'nondimensional_potential_stiffness': (['potential_stiffness', 'link_length', 'temperature'], lambda: t.div(t.mul(S('potential_stiffness'), t.power(S('link_length'), num(2))), kT)),
            'nondimensional_end_to_end_length_per_link': (['end_to_end_length', 'number_of_links', 'link_length'], lambda: t.div(S('end_to_end_length'), t.mul(S('number_of_links'), S('link_length')))),
        }
        if role in need:
            rs, f = need[role]
            if all(r in roles for r in rs):
                return f()
            return None
        return S(role)


def get(ctx):
    if not hasattr(ctx, 'model'):
        ctx.model = Model(ctx)
    return ctx.model
