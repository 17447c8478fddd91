"""Path exploration and queries over the symbolic scalars of core.py."""
import math
import random
import time
from fractions import Fraction

import z3

from .core import (World, W, B, S, C, PathAbort, Unsupported, p2z, q2z, padd, pneg, patoms,
                   clear_denoms, num, bor, band, psign)

z3.set_param('memory_max_size', 6000)


_LIN = {}


def linearise(e):
    """the constraint with every product of unknowns replaced by a variable of its own (a relaxation)"""
    k = e.get_id()
    r = _LIN.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    v = e
    if z3.is_app(e) and e.num_args():
        ch = [linearise(c) for c in e.children()]
        kind = e.decl().kind()
        if kind == z3.Z3_OP_MUL:
            con = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(rest) > 1:
                m = z3.Real('mono!' + '.'.join(str(i) for i in sorted(c.get_id() for c in rest)))
                _KEEP.append(rest)
                v = m
                for c in con:
                    v = c * v
        elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
            v = z3.Real('opq!%d' % k)
            _KEEP.append(e)
        elif any(not c.eq(o) for c, o in zip(ch, e.children())):
            v = e.decl()(*ch)
    _LIN[k] = (e, v)
    return v


_KEEP = []


class Explorer(object):
    def __init__(self, world, seed=1, feas_ms=2500, max_paths=4000):
        self.world = world
        world.explorer = self
        self.seed = seed
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.stack = [[]]
        self.assume_always = []      # B of leaf domains / harness assumptions (per path)
        self.stats = dict(paths=0, decisions=0, feas_queries=0, goal_queries=0, solver_s=0.0,
                          infeasible=0, unknown_feas=0)
        self.path = []
        self.prefix = []
        self.trace = []
        self._sat_cache = {}

    # -- paths
    def next_prefix(self):
        if not self.stack:
            return None
        if self.stats['paths'] >= self.max_paths:
            raise Unsupported('path budget exceeded (%d)' % self.max_paths)
        return self.stack.pop()

    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.path = []               # list of B
        self.stats['paths'] += 1

    def assume(self, b):
        if isinstance(b, B):
            self.path.append(b)
        elif not b:
            raise PathAbort('assumption false')

    def decide(self, b):
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            z = z3.simplify(b.z)
            if z3.is_true(z) or z3.is_false(z):
                return z3.is_true(z)
            self.stats['decisions'] += 1
            t = self.feasible(b)
            f = self.feasible(~b)
            if not t and not f:
                self.stats['infeasible'] += 1
                raise PathAbort('infeasible')
            if t and f:
                self.stack.append(self.trace + [False])
                v = True
            else:
                # forced: not a branch, but the fact itself is implied
                v = True if t else False
        self.trace.append(v)
        self.path.append(b if v else ~b)
        return v

    def concretize_int(self, x):
        """fork over the feasible integer values of x"""
        tried = 0
        while True:
            tried += 1
            if tried > 40:
                raise Unsupported('too many integer values')
            # deterministic candidate order: evaluate model
            k = len(self.trace)
            if k < len(self.prefix):
                # replay: the candidate sequence is deterministic through the cache
                v = self._cand(x, k)
            else:
                v = self._cand(x, k)
            if v is None:
                raise PathAbort('no integer value')
            if self._integral(x):
                c = (x == v)
            elif v > 0:
                c = (x >= v) & (x < v + 1)
            elif v < 0:
                c = (x > v - 1) & (x <= v)
            else:
                c = (x > -1) & (x < 1)
            if c is True or (isinstance(c, B) and self.decide(c)):
                return v

    def _integral(self, x):
        for a in patoms(x.p):
            i = self.world.atoms[a].info
            d = i.get('dom') if isinstance(i, dict) else None
            if not d or any(Fraction(v).denominator != 1 for v in d):
                return False
        return True

    def _cand(self, x, k):
        key = (tuple(self.trace), k)
        if key in self._sat_cache:
            return self._sat_cache[key]
        z = p2z(x.p)
        at = patoms(x.p)
        cons, _ = self.relevant(at)
        s = self._solver(self.feas_ms * 4)
        s.add(*cons)
        r = self._check(s)
        if r == z3.unsat:
            v = None
        elif r == z3.sat:
            mv = s.model().eval(z, model_completion=True)
            if not z3.is_rational_value(mv):
                raise Unsupported('non-rational integer candidate')
            fr = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
            v = int(fr)
        else:
            raise Unsupported('no integer candidate (unknown)')
        self._sat_cache[key] = v
        return v

    # -- constraint gathering
    def closure(self, atoms):
        seen = set()
        todo = list(atoms)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            todo.extend(self.world.atoms[a].deps - seen)
        return seen

    def relevant(self, atoms, extra=()):
        """path constraints connected with `atoms`, plus definitions and domains"""
        live = self.closure(atoms)
        rest = list(self.path)
        used = []
        changed = True
        cls = [(b, self.closure(b.atoms)) for b in rest]
        while changed:
            changed = False
            keep = []
            for b, cl in cls:
                if cl & live:
                    live |= cl
                    used.append(b)
                    changed = True
                else:
                    keep.append((b, cl))
            cls = keep
        cons = [b.z for b in used]
        cons += self.defs(live)
        return cons, live

    def defs(self, live):
        cons = []
        for a in sorted(live):
            at = self.world.atoms[a]
            cons.extend(at.defs)
        return cons

    def _solver(self, ms):
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', self.seed)
        return s

    def _check(self, s):
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        self.stats['solver_s'] += time.time() - t
        return r

    def feasible(self, b):
        cons, live = self.relevant(b.atoms)
        self.stats['feas_queries'] += 1
        if self._lin_unsat(cons, b.z):
            return False
        s = self._solver(self.feas_ms)
        s.add(*cons)
        s.add(b.z)
        r = self._check(s)
        if r == z3.unknown:
            self.stats['unknown_feas'] += 1
        return r != z3.unsat

    def _lin_unsat(self, cons, z):
        """unsat already from the linear constraints alone (a relaxation)"""
        s = self._solver(1000)
        s.add(*[linearise(c) for c in cons])
        s.add(linearise(z))
        return self._check(s) == z3.unsat

    # -- goals: prove `good` on this path; return ('unsat'|'sat'|'unknown', assignment)
    def all_constraints(self, extra_atoms=()):
        at = set(extra_atoms)
        for b in self.path:
            at |= b.atoms
        live = self.closure(at)
        return [b.z for b in self.path] + self.defs(live), live

    def prove(self, bad, leaves, ms=20000, hint=None, strong=None):
        """bad: B that must be unsatisfiable with the path; strong: a stricter
        version of bad, preferred when looking for a counterexample"""
        self.stats['goal_queries'] += 1
        if bad is False:
            return 'unsat', None
        if bad is True:
            bad = B(z3.BoolVal(True), ())
        cons, live = self.relevant(bad.atoms)
        s = self._solver(ms)
        s.add(*cons)
        s.add(bad.z)
        if self._lin_unsat(cons, bad.z):
            return 'unsat', None
        # one part of the goal may be contradictory given the definitions of its own unknowns alone
        for c in self._parts(bad.z):
            at = self._atoms_of(c)
            if not at or len(at) > 40:
                continue
            s1 = self._solver(300)
            s1.add(*self.defs(at))
            s1.add(c)
            if self._check(s1) == z3.unsat:
                return 'unsat', None
        # cheap: substitute sampled values for the inputs, ask the solver for the rest
        s0 = self._solver(1500)
        s0.add(*cons)
        s0.add(bad.z)
        r = self._check(s0)
        if r == z3.unsat:
            return 'unsat', None
        for k in range(6):
            m = self.sampled(strong if (strong is not None and strong is not False) else bad, leaves, k)
            if m is not None:
                return 'sat', m
        if r == z3.unknown:
            r = self._check(s)
            if r == z3.unsat:
                return 'unsat', None
        if strong is not None and isinstance(strong, B):
            m = self.generic_model(strong, leaves, ms)
            if m is not None:
                return 'sat', m
        m = self.generic_model(bad, leaves, ms)
        if m is not None:
            return 'sat', m
        return ('sat' if r == z3.sat else 'unknown'), None

    def _parts(self, z, neg=False):
        k = z.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self._parts(z.arg(0), not neg)
        if k == (z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
            return [p for c in z.children() for p in self._parts(c, neg)]
        return [z3.Not(z) if neg else z]

    def _atoms_of(self, z):
        by = self.world.__dict__.setdefault('_by_name', {})
        if len(by) != len(self.world.atoms):
            by.clear()
            for i, a in (self.world.atoms.items() if isinstance(self.world.atoms, dict) else enumerate(self.world.atoms)):
                by[a.var.decl().name()] = i
        out, todo, seen = set(), [z], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if e.decl().name() in by:
                    out.add(by[e.decl().name()])
            todo.extend(e.children())
        return out

    def sampled(self, goal, leaves, k, ms=2500, sub=1.0):
        """fix (most) inputs to pseudo-random values in their domains, ask z3"""
        rnd = random.Random('%s/%s' % (self.seed, k))
        atoms = goal.atoms if isinstance(goal, B) else set()
        cons, live = self.all_constraints(atoms)
        s = self._solver(ms)
        s.add(*cons)
        if isinstance(goal, B):
            s.add(goal.z)
        fixed = self.random_values(leaves, rnd, k)
        # drop inputs constrained by the path: let the solver choose them
        pathatoms = set()
        for b in self.path:
            pathatoms |= self.closure(b.atoms)
        asg = {}
        frac = [0.0, 0.0, 0.35, 0.6, 0.8, 1.0][k % 6]
        for lf in leaves:
            if lf.id not in live:
                asg[lf.id] = fixed[lf.id]
                continue
            free = (lf.id in pathatoms and k % 2 == 1) or rnd.random() < frac
            if free and not lf.info.get('angle'):
                continue
            asg[lf.id] = fixed[lf.id]
            s.add(lf.var == q2z(fixed[lf.id]))
        self.add_trig(s, live, asg)
        r = self._check(s)
        if r != z3.sat:
            return None
        return self.extract(s.model(), leaves, asg)

    def add_trig(self, s, live, asg):
        for a in live:
            at = self.world.atoms[a]
            if at.kind == 'cos':
                mono, k0, cid, sid = at.info
                v = Fraction(k0)
                ok = True
                for x, e in mono:
                    if x not in asg:
                        ok = False
                        break
                    v *= Fraction(asg[x]) ** e
                if not ok:
                    continue
                t = Fraction(math.tan(float(v) / 2)).limit_denominator(10 ** 9)
                c = (1 - t * t) / (1 + t * t)
                sn = 2 * t / (1 + t * t)
                s.add(at.var == q2z(c), self.world.atoms[sid].var == q2z(sn))

    def random_values(self, leaves, rnd, k):
        out = {}
        for lf in leaves:
            dom = lf.info.get('dom')
            if dom:
                out[lf.id] = Fraction(rnd.choice(dom))
                continue
            lo = lf.lo if lf.lo is not None else -10
            hi = lf.hi if lf.hi is not None else 10
            lo, hi = float(lo), float(hi)
            v = lo + (hi - lo) * rnd.uniform(0.08, 0.92)
            q = Fraction(v).limit_denominator(64)
            if not (lo <= q <= hi):
                q = Fraction(v).limit_denominator(10 ** 6)
            out[lf.id] = q
        return out

    def generic_model(self, goal, leaves, ms):
        cons, live = self.all_constraints(goal.atoms if isinstance(goal, B) else ())
        s = self._solver(ms)
        s.add(*cons)
        if isinstance(goal, B):
            s.add(goal.z)
        r = self._check(s)
        if r != z3.sat:
            return None
        return self.extract(s.model(), leaves, {})

    def zval(self, m, var):
        v = m.eval(var, model_completion=True)
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return None

    def extract(self, m, leaves, asg):
        decl = set(d.name() for d in m.decls())
        out = {}
        rnd = random.Random('%s/x' % self.seed)
        dflt = self.random_values(leaves, rnd, 0)
        for lf in leaves:
            if lf.id in asg:
                out[lf.name] = float(asg[lf.id])
                continue
            if lf.var.decl().name() in decl:
                v = self.zval(m, lf.var)
                out[lf.name] = float(v if v is not None else dflt[lf.id])
            else:
                out[lf.name] = float(dflt[lf.id])
        # angles: take them from their cosine / sine when those were chosen
        for at in self.world.atoms:
            if at.kind == 'cos' and at.info[0] and len(at.info[0]) == 1:
                mono, k0, cid, sid = at.info
                (a, e), = mono
                lf = self.world.atoms[a]
                if lf.id in asg or e != 1 or lf.kind != 'in':
                    continue
                if lf.var.decl().name() in decl and not lf.info.get('angle'):
                    continue
                if at.var.decl().name() in decl or self.world.atoms[sid].var.decl().name() in decl:
                    c = self.zval(m, at.var)
                    sn = self.zval(m, self.world.atoms[sid].var)
                    if c is not None and sn is not None:
                        out[lf.name] = math.atan2(float(sn), float(c)) / float(k0)
        return out

    def path_model(self, leaves, tries=4):
        """an input assignment that drives the real code down this path"""
        for k in range(tries):
            m = self.sampled(None, leaves, k)
            if m is not None:
                return m
        return self.generic_model(None, leaves, 4000)
