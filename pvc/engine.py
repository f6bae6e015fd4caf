"""Path exploration, obligations and their discharge"""
import os, time, hashlib, traceback
import z3
from .values import *


COS = z3.Function('cos', z3.RealSort(), z3.RealSort())
SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())


def safe_check(solver, *assumptions):
    """solver.check(), an error inside of the solver being no answer"""
    try:
        return solver.check(*assumptions)
    except z3.Z3Exception:
        return z3.unknown


class Unsupported(Exception):
    """The verified text leaves the supported subset: undecided, not a verdict"""


class PathEnd(Exception):
    """This path is infeasible, or was only explored for its obligations"""


class Budget(Unsupported):
    pass


class PyExc(Exception):
    """A Python exception of the interpreted program"""
    def __init__(self, cls, value=None, args=()):
        Exception.__init__(self, '%s%r' % (cls.__name__, args))
        self.cls, self.value, self.pyargs = cls, value, args


class Obligation(object):
    def __init__(self, name):
        self.name = name
        self.proved = 0          # paths on which it was discharged
        self.trivial = 0         # ... of these, syntactically
        self.refuted = []        # (model text, path text)
        self.unknown = []
        self.time = 0.0
    @property
    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown:
            return 'unknown'
        return 'proved' if self.proved else 'vacuous'


class Report(object):
    """Outcome of the exploration of one harness"""
    def __init__(self, name):
        self.name = name
        self.obligations = {}
        self.paths = 0
        self.completed = 0
        self.unsupported = []
        self.functions = set()       # interpreted functions
        self.contracts = set()       # contracts used at call sites
        self.assumptions = set()
        self.covers = {}
        self.queries = 0
        self.solver_time = 0.0
        self.wall = 0.0
        self.smt = []                # smt2 dumps of discharged obligations (thorough)


class Ctx(object):
    """One path of one harness"""
    def __init__(self, report, decisions, options):
        self.report = report
        self.decisions = decisions       # list of [choice, n alternatives]
        self.position = 0
        self.options = options
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', options.get('timeout', 8000))
        self.solver.set('random_seed', options.get('seed', 0))
        self.counter = 0
        self.trace = []                  # ghost: externally visible events
        self.writes = []                 # ghost: (object, key) of every heap write
        self.fresh_ids = {}              # containers allocated by this path
        self.exact = True                # no over-approximation so far
        self.notes = []
        self.forall = []                 # quantified facts, instantiated on demand
        self.interp = None
        self.deadline = float('inf')

    # -- symbols
    def name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)
    def bool(self, base='b'):
        return SBool(z3.Bool(self.name(base)))
    def int(self, base='i'):
        return SInt(z3.Int(self.name(base)))
    def real(self, base='r'):
        return SReal(z3.Real(self.name(base)))
    def str(self, base='s'):
        return SStr(z3.String(self.name(base)))
    def any(self, base='v', cls=None):
        return SAny(z3.Const(self.name(base), V), cls, base)
    def obj(self, cls, label=None, open=False, **attrs):
        label = label or cls.__name__
        o = Obj(cls, SDict(open=open, label=label + '.__dict__'), label, z3.Const(self.name(label), V))
        self.distinct(o)
        for key, value in attrs.items():
            o.d.over.append([key, value])
        return o
    def distinct(self, o):
        refs = self.__dict__.setdefault('_refs', [])
        for r in refs:
            self.assume(r != o.ref, check=False)
        refs.append(o.ref)
        self.__dict__.setdefault('_objs', []).append(o)
    def slist(self, base='list', codec=None):
        sort = codec.sort if codec else V
        return SList(z3.Const(self.name(base), z3.SeqSort(sort)), base, codec)

    # -- real arithmetic
    def sqrt(self, x):
        key = ('sqrt', x.z.get_id())
        cache = self.__dict__.setdefault('_funcs', {})
        if key not in cache:
            x = x if isinstance(x, SReal) else SReal(real(x))
            r = z3.Real(self.name('sqrt'))
            if self.branch(x.z < 0):
                raise Unsupported('square root of a negative number')
            self.assume(z3.And(r >= 0, r * r == x.z, (r == 0) == (x.z == 0)), check=False)
            cache[key] = (SReal(r), x)
        return cache[key][0]
    def trig(self, x):
        """cos and sin of an angle: only the axioms are known of them"""
        z = z3.simplify(real(x))
        key = ('trig', z.get_id())
        cache = self.__dict__.setdefault('_funcs', {})
        if key not in cache:
            if z3.is_rational_value(z) and z.as_fraction() == 0:
                cache[key] = (SReal(z3.RealVal(1)), SReal(z3.RealVal(0)), z)
            else:
                c, s = COS(z), SIN(z)
                self.assume(z3.And(c * c + s * s == 1, COS(-z) == c, SIN(-z) == -s), check=False)
                cache[key] = (SReal(c), SReal(s), z)
        return cache[key][:2]
    def fmod(self, a, b):
        """a % b for b > 0, as a real number"""
        r = z3.Real(self.name('mod'))
        x, y = real(a), real(b)
        self.assume(z3.And(r >= 0, r < y), check=False)
        # x = k*y + r is only used through its consequence for whole turns
        import math
        if abs(float(b) - 2 * math.pi) < 1e-5:
            self.assume(z3.Implies(r == 0, z3.And(COS(x) == 1, SIN(x) == 0)), check=False)
            self.report.assumptions.add('the constant 2*pi is exact: a %% 2pi == 0 means cos a = 1, sin a = 0')
        self.assume(z3.Implies(z3.And(x >= 0, x < y), r == x), check=False)
        return SReal(r)

    # -- decisions
    def _decide(self, options):
        """Take one of options (list of thunks returning feasibility)"""
        if self.position < len(self.decisions):
            choice = self.decisions[self.position][0]
        else:
            choice = 0
            self.decisions.append([0, options])
            if len(self.decisions) > self.options.get('max_decisions', 400):
                raise Budget('more than %d decisions on a path' % len(self.decisions))
        self.position += 1
        return choice
    def choose(self, items):
        """Nondeterministic choice: every item is explored"""
        items = list(items)
        if len(items) == 1:
            return items[0]
        return items[self._decide(len(items))]
    def branch(self, cond):
        """Python truth of a z3 Bool, exploring both outcomes that are feasible"""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.position < len(self.decisions):
            choice = self.decisions[self.position][0]
            self.position += 1
            taken = (choice == 0)
            if self.decisions[self.position - 1][1] == 1:
                # only one side was feasible, recorded as choice value
                taken = self.decisions[self.position - 1][2]
            self._add(cond if taken else z3.Not(cond))
            return taken
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathEnd('infeasible')
        if t and f:
            self.decisions.append([0, 2, None])
            taken = True
        else:
            taken = t
            self.decisions.append([0, 1, taken])
        if len(self.decisions) > self.options.get('max_decisions', 400):
            raise Budget('more than %d decisions on a path' % len(self.decisions))
        self.position += 1
        self._add(cond if taken else z3.Not(cond))
        return taken
    def in_time(self, now):
        if now > self.deadline:
            raise Budget('wall-clock budget exceeded on a path')
    def feasible(self, cond=None):
        self.report.queries += 1
        t0 = time.time()
        self.in_time(t0)
        r = safe_check(self.solver, *([cond] if cond is not None else []))
        self.report.solver_time += time.time() - t0
        return r != z3.unsat
    def only_value(self, z):
        """The text z must be on this path, or None"""
        self.report.queries += 1
        if safe_check(self.solver) != z3.sat:
            return None
        v = self.solver.model().eval(z, model_completion=True)
        if not z3.is_string_value(v) or self.feasible(z != v):
            return None
        s = v.as_string()
        return s if s.isascii() and '\\' not in s else None
    def _add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
    def assume(self, cond, check=True):
        """Restrict this path (preconditions, assumed contracts)"""
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd('assumed false')
            return
        self._add(cond)
        if check and not self.feasible():
            raise PathEnd('assumption infeasible')
    def approx(self, why):
        """This path no longer represents only real behaviour"""
        self.exact = False
        self.notes.append(why)

    # -- obligations
    def check(self, name, cond, why=''):
        """Obligation: cond holds on this path"""
        ob = self.report.obligations.setdefault(name, Obligation(name))
        if isinstance(cond, SBool):
            cond = cond.z
        if not z3.is_expr(cond):
            cond = bool(cond)
        if isinstance(cond, bool):
            if cond:
                ob.proved += 1
                ob.trivial += 1
                return True
            cond = z3.BoolVal(False)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            ob.proved += 1
            ob.trivial += 1
            return True
        t0 = time.time()
        self.report.queries += 1
        r, model = self._prove(cond)
        counter = True
        if r == z3.sat and self.forall:
            r, model, counter = self._against_facts(cond, model)
        dt = time.time() - t0
        ob.time += dt
        self.report.solver_time += dt
        if r == z3.unsat:
            ob.proved += 1
            if self.options.get('dump') is not None and not self.options.get('nodump'):
                s = z3.Solver()
                s.add(*self.pc)
                s.add(z3.Not(cond))
                self.options['dump'].append((self.report.name + '/' + name, s.to_smt2()))
            return True
        entry = dict(path=[str(p)[:300] for p in self.pc[-12:]], goal=str(cond)[:600], why=why,
                     exact=self.exact and counter and 'fmt!' not in ''.join(str(p) for p in self.pc) + str(cond), notes=list(self.notes))
        if r == z3.sat:
            entry['model'] = str(model)[:1500]
            entry['inputs'] = self._inputs(model)
            ob.refuted.append(entry)
        else:
            entry['reason'] = 'solver: %s' % r
            ob.unknown.append(entry)
        return False
    def _prove(self, cond):
        s = self.solver
        s.push()
        s.add(z3.Not(cond))
        r = safe_check(s)
        model = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unknown:
            # a fresh, non-incremental solver uses different strategies
            s2 = z3.SolverFor('ALL') if False else z3.Solver()
            s2.set('timeout', self.options.get('timeout2', 30000))
            s2.add(*self.pc)
            s2.add(z3.Not(cond))
            r = safe_check(s2)
            if r == z3.sat:
                model = s2.model()
        return r, model
    def _against_facts(self, cond, model, rounds=8):
        """The solver's counterexample was found without the facts known of every index.  Use each
        fact where a counterexample contradicts it, until the goal is proved or a counterexample
        agrees with all of them; failing that, look for a small one.
        -> (verdict, model, whether the model is known to agree with every fact)"""
        facts, i = list(self.forall), z3.Int('index!')
        general = [fact(i) for fact in facts]
        first = model
        for small in (False, True):
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*self.pc)
            s.add(z3.Not(cond))
            for a, b, holds in sequence_relations(cond):
                # two sequences which are not so related differ in length, or at some index
                w = z3.FreshInt('differ')
                s.add(z3.Or(holds, z3.Length(a) != z3.Length(b) if holds.decl().kind() == z3.Z3_OP_EQ else z3.Length(a) > z3.Length(b),
                            z3.And(w >= 0, w < z3.Length(a), item_of(a, w) != item_of(b, w), *[fact(w) for fact in facts])))
            if small:
                s.add(*[z3.Length(c) <= 3 for c in constants(self.pc + [cond] + general) if z3.is_seq(c)])
                for k in range(-1, 5):
                    s.add(*[fact(z3.IntVal(k)) for fact in facts])
            for _ in range(rounds):
                if time.time() > self.deadline:
                    return z3.sat, first, False
                r = safe_check(s)
                if r == z3.unsat and not small:
                    return r, None, True
                if r != z3.sat:
                    break
                m = s.model()
                wrong = [fact(z3.IntVal(k)) for k in range(-2, 13) for fact in facts
                         if not z3.is_true(m.eval(fact(z3.IntVal(k)), model_completion=True))]
                for text in general if not wrong else ():
                    t = z3.Solver()
                    t.set('timeout', 2000)
                    t.add(z3.Or(i < -2, i > 12), z3.Not(m.eval(text, model_completion=True)))
                    v = safe_check(t)
                    if v == z3.sat:
                        k = t.model().eval(i, model_completion=True)
                        wrong += [fact(k) for fact in facts]
                    elif v != z3.unsat:
                        wrong = None
                        break
                if wrong is None:
                    break
                if not wrong:
                    return z3.sat, m, True
                s.add(*wrong)
        return z3.sat, first, False
    def _inputs(self, model):
        try:
            return {str(d): str(model[d])[:200] for d in model.decls() if d.arity() == 0}
        except Exception:
            return {}
    def fail(self, name, why):
        """An obligation that does not hold on this (feasible) path"""
        return self.check(name, False, why)
    def cover(self, name):
        """Vacuity guard: some path must get here"""
        self.report.covers[name] = self.report.covers.get(name, 0) + 1
    def instantiate(self, j):
        """Use the facts known of every index at index j"""
        for fact in list(self.forall):
            self.assume(fact(j), check=False)


def constants(terms):
    """The uninterpreted constants of some terms"""
    out, seen, work = [], set(), list(terms)
    while work:
        t = work.pop()
        if not z3.is_expr(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        work.extend(t.children())
    return out


def sequence_relations(term):
    """Equalities and prefixes of sequences (not texts) in a term"""
    out, seen, work = [], set(), [term]
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_SEQ_PREFIX) and z3.is_seq(t.arg(0)) and not z3.is_string(t.arg(0)):
            out.append((t.arg(0), t.arg(1), t))
        work.extend(t.children())
    return out


def item_of(seq, i):
    """The item at an index within a sequence"""
    while z3.is_app(seq) and seq.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        seq, i = seq.arg(0), seq.arg(1) + i
    return seq[z3.simplify(i)]


def explore(name, harness, options=None, prepare=None):
    """Run harness(ctx) over all of its paths"""
    options = dict(options or {})
    report = Report(name)
    work = [[]]
    t0 = time.time()
    deadline = t0 + options.get('wall', 120)
    while work:
        if time.time() > deadline:
            report.unsupported.append('wall-clock budget of %ss exceeded' % options.get('wall', 120))
            break
        if report.paths >= options.get('max_paths', 3000):
            report.unsupported.append('more than %d paths' % report.paths)
            break
        decisions = work.pop()
        prefix = len(decisions)
        ctx = Ctx(report, decisions, options)
        ctx.deadline = deadline + options.get('wall', 120)
        if prepare:
            prepare(ctx)
        report.paths += 1
        CURRENT.append(ctx)
        try:
            harness(ctx)
            report.completed += 1
        except PathEnd:
            pass
        except Unsupported as err:
            text = str(err) or type(err).__name__
            if text not in report.unsupported:
                report.unsupported.append(text)
        except PyExc as err:
            if ctx.feasible():
                ctx.check('no unexpected %s' % err.cls.__name__, False, 'uncaught %s' % err)
        except RecursionError:
            report.unsupported.append('recursion too deep')
        except z3.Z3Exception as err:
            if os.environ.get('PVC_TRACE'):
                traceback.print_exc()
            report.unsupported.append('z3: %s' % str(err)[:200])
        finally:
            CURRENT.pop()
        # schedule the alternatives of the decisions made beyond the prefix
        for i in range(len(ctx.decisions) - 1, prefix - 1, -1):
            d = ctx.decisions[i]
            for alternative in range(d[1] - 1, d[0], -1):
                new = [list(x) for x in ctx.decisions[:i]] + [[alternative] + list(d[1:])]
                work.append(new)
    report.wall = time.time() - t0
    return report
