"""Loops over sequences of unknown length.

A loop body is explored once, at an arbitrary index, from the state before the
loop with every variable it assigns forgotten.  The outcomes are combined by
one of:
  * the search rule: some iteration leaves the loop (return, break, exception)
    and all earlier ones end normally, or all end normally;
  * a loop contract given by the specification (invariants), see LoopSpec.
Anything else is Unsupported.
"""
import ast
import z3
from .values import *
from .engine import *
from . import models
from .interp import Return, Break, Continue, Poison, scope


class Outcome(object):
    """One path through a loop body: its conditions, facts about all indices of loops
    inside it, and its result; counter is that of fresh names before the body"""
    def __init__(self, kind, conds, value, trace, locals_, facts=(), counter=0):
        self.kind, self.conds, self.value, self.trace, self.locals = kind, conds, value, trace, locals_
        self.facts, self.counter = list(facts), counter
    def at(self, j, i):
        """The condition under which this path is taken at index i

        Constants introduced by the body are existentially bound, each being a
        (Skolem) function of the index here.
        """
        parts = list(self.conds)
        for n, fact in enumerate(self.facts):
            m = z3.Int('each!%d!%d' % (self.counter, n))
            parts.append(z3.ForAll([m], fact(m)))
        c = z3.And(*parts) if parts else z3.BoolVal(True)
        pairs, funs = [(j, i)], []
        for d in fresh_names(c, self.counter, j):
            args = [d.domain(n) for n in range(d.arity())]
            f = z3.Function(d.name() + '@', z3.IntSort(), *(args + [d.range()]))
            if not args:
                pairs.append((d(), f(i)))
            else:
                funs.append((d, f(i, *[z3.Var(n, a) for n, a in enumerate(args)])))
        if funs:
            c = z3.substitute_funs(c, *funs)
        return z3.substitute(c, *pairs)


def fresh_names(e, counter, j):
    """Uninterpreted constants and functions of e named after the counter value given"""
    out, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                name = d.name()
                tail = name.rsplit('!', 1)[-1].rstrip('@') if '!' in name else ''
                if tail.isdigit() and int(tail) > counter and not name.startswith('each!') and not z3.eq(x, j):
                    out[name] = d
            todo.extend(x.children())
    return list(out.values())


def assigned(stmts):
    names = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.FunctionDef):
                names.add(n.name)
    return names


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def sub_explore(interp, run, fr=None):
    """All outcomes of run() from the present state; the state is restored"""
    ctx = interp.ctx
    saved = (ctx.decisions, ctx.position, ctx.trace, len(ctx.pc), ctx.forall)
    counter = ctx.counter
    saved_locals = dict(fr.locals) if fr is not None else None
    outcomes = []
    work = [[]]
    count = 0
    while work:
        decisions = work.pop()
        prefix = len(decisions)
        count += 1
        if count > 200:
            raise Budget('more than 200 paths through a loop body')
        ctx.decisions, ctx.position, ctx.trace = decisions, 0, []
        ctx.forall = list(saved[4])
        if fr is not None:
            fr.locals = dict(saved_locals)
        start = len(ctx.pc)
        ctx.solver.push()
        kind, value = 'normal', None
        exact = ctx.exact
        try:
            try:
                value = run()
            except Return as r:
                kind, value = 'return', r.value
            except Break:
                kind = 'break'
            except Continue:
                kind = 'normal'
            except PyExc as e:
                kind, value = 'raise', e
            outcomes.append(Outcome(kind, list(ctx.pc[start:]), value, ctx.trace, dict(fr.locals) if fr is not None else None,
                                    ctx.forall[len(saved[4]):], counter))
        except PathEnd:
            pass
        finally:
            ctx.solver.pop()
            del ctx.pc[start:]
            decs = ctx.decisions
            ctx.decisions, ctx.position, ctx.trace = saved[0], saved[1], saved[2]
            ctx.forall = saved[4]
            if fr is not None:
                fr.locals = dict(saved_locals)
        for i in range(len(decs) - 1, prefix - 1, -1):
            d = decs[i]
            for alternative in range(d[1] - 1, d[0], -1):
                work.append([list(x) for x in decs[:i]] + [[alternative] + list(d[1:])])
    return outcomes


def for_loop(interp, s, fr, it):
    items = interp.iterate(it)
    if isinstance(items, (SList, LazyList)):
        return symbolic_for(interp, s, fr, items, it)
    broke = False
    source_list = it if type(it) is list else None
    i = 0
    while True:
        seq = source_list if source_list is not None else items
        if i >= len(seq):
            break
        if i > 4000:
            raise Budget('loop too long')
        interp.assign(s.target, seq[i], fr)
        i += 1
        try:
            interp.block(s.body, fr)
        except Continue:
            continue
        except Break:
            broke = True
            break
    if not broke:
        interp.block(s.orelse, fr)


def symbolic_for(interp, s, fr, items, original):
    ctx = interp.ctx
    for spec in interp.loop_specs:
        if spec(interp, s, fr, items) is not NotImplemented:
            return
    if append_loop(interp, s, fr, items):
        return
    n = models.length_term(items)
    names = assigned(s.body) | target_names(s.target)
    before = dict(fr.locals)
    for name in names:
        fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
    j = z3.Int(ctx.name('j'))
    counter_before = ctx.counter
    def run():
        ctx.assume(z3.And(j >= 0, j < n), check=True)
        interp.assign(s.target, models.index_list(interp, items, j), fr)
        interp.block(s.body, fr)
    ctx.report.assumptions.discard(None)
    if not ctx.feasible(n > 0):
        outcomes = []
    else:
        handled = interp.handled
        outcomes = sub_explore(interp, run, fr)
        if interp.loop_specs and interp.handled != handled:
            # what the contracts called record is that of one step only
            ctx.approx('a loop in %s which the harness has no rule for' % fr.name)
    summary = summarise(interp, outcomes, j, n, fr, names, before, items)
    leaves = [o for o in outcomes if o.kind != 'normal']
    options = ['all'] + ['leave%d' % i for i in range(len(leaves))]
    choice = ctx.choose(options)
    segment = [o for o in outcomes if o.kind == 'normal']
    if choice == 'all':
        iterations_before(interp, fr, segment, j, n, names, target_names(s.target), before)
        ctx.trace.append(('foreach', j, n, segment, items))
        for name in names:
            if name in target_names(s.target):
                fr.locals[name] = Poison('loop variable %s after a loop of %s' % (name, fr.name))
        interp.block(s.orelse, fr)
        return
    o = leaves[int(choice[5:])]
    k = z3.Int(ctx.name('leave'))
    for c in o.conds:
        ctx.assume(z3.substitute(c, (j, k)), check=False)
    for fact in o.facts:
        add_fact(ctx, lambda i, fact=fact: z3.substitute(fact(i), (j, k)))
    if not ctx.feasible():
        raise PathEnd('leave infeasible')
    iterations_before(interp, fr, segment, j, k, names, target_names(s.target), before)
    ctx.trace.append(('foreach', j, k, segment, items))
    for t in o.trace:
        ctx.trace.append(subst_event(interp, t, j, k))
    for name in names:
        if name in o.locals and not isinstance(o.locals[name], Poison):
            fr.locals[name] = subst_value(interp, o.locals[name], j, k)
    if o.kind == 'return':
        raise Return(subst_value(interp, o.value, j, k))
    if o.kind == 'raise':
        raise o.value
    # break


class BlockExpr(ast.expr):
    """Statements, then the value of an expression"""
    _fields = ('stmts', 'value')


def append_loop(interp, s, fr, items):
    """acc = [] ... for x in items: acc.append(e) is acc = [e for x in items]

    Only if nothing but the name acc can refer to the list when the loop begins: it is made by a
    literal in the same block and not mentioned in between.
    """
    if s.orelse:
        return False
    calls = [c.value for c in ast.walk(ast.Module(s.body, [])) if isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Attribute)
             and c.value.func.attr == 'append' and isinstance(c.value.func.value, ast.Name) and len(c.value.args) == 1 and not c.value.keywords]
    names = {c.func.value.id for c in calls}
    if len(names) != 1:
        return False
    acc = names.pop()
    if len([n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == acc]) != len(calls):
        return False
    start = fr.locals.get(acc)
    if type(start) is not list or start:
        return False
    siblings = list(fr.siblings)
    if s not in siblings:
        return False
    for t in reversed(siblings[:siblings.index(s)]):
        if isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name) and t.targets[0].id == acc:
            if isinstance(t.value, ast.List) and not t.value.elts or isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id == 'list' and not t.value.args:
                break
            return False
        if any(isinstance(n, ast.Name) and n.id == acc for n in ast.walk(t)):
            return False
    else:
        return False
    class No(Exception):
        pass
    def expression(stmts):
        if not stmts:
            raise No()
        lead, last = stmts[:-1], stmts[-1]
        for t in lead:
            if not isinstance(t, (ast.Assign, ast.Pass, ast.Expr)) or any(isinstance(n, ast.Name) and n.id == acc for n in ast.walk(t)):
                raise No()
        if isinstance(last, ast.Expr) and last.value in calls:
            value = last.value.args[0]
        elif isinstance(last, ast.If) and last.orelse:
            value = ast.IfExp(last.test, expression(last.body), expression(last.orelse))
        else:
            raise No()
        return BlockExpr(lead, value) if lead else value
    try:
        body, ifs = s.body, []
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            ifs.append(body[0].test)
            body = body[0].body
        elt = expression(body)
    except No:
        return False
    e = ast.copy_location(ast.ListComp(elt, [ast.comprehension(s.target, s.iter, ifs, 0)]), s)
    ast.fix_missing_locations(e)
    from .interp import Frame
    inner = Frame(fr.name + '.<loop>', fr.glob, fr, None, fr.clsname)
    inner.first = fr.first
    result = symbolic_comp(interp, e, inner, items, e.generators[0], 'list')
    for name in assigned(s.body) | target_names(s.target):
        fr.locals[name] = Poison('value of %s after a loop of %s' % (name, fr.name))
    fr.locals[acc] = result
    return True


CONSTANTS = (bool, int, str, float, type(None))


def iterations_before(interp, fr, segment, j, n, names, targets, before):
    """Iterations 0 .. n-1 have ended normally: what is known of them and of the variables

    A variable which some iterations set to one constant, and the others leave
    alone, is a flag: either some iteration set it, or none did.
    """
    ctx = interp.ctx
    flags = []
    for name in sorted(names - targets):
        values, kept = [], False
        for o in segment:
            v = o.locals.get(name)
            if isinstance(v, Poison):
                kept = True
            else:
                values.append(v)
        if values and all(type(v) in CONSTANTS and type(v) is type(values[0]) and v == values[0] for v in values):
            flags.append((name, values[0]))
    allowed = list(segment)
    for name, value in flags:
        setting = [o for o in allowed if not isinstance(o.locals.get(name), Poison)]
        if setting and ctx.choose([True, False]):
            w = z3.Int(ctx.name('setter'))
            ctx.assume(z3.And(w >= 0, w < n), check=False)
            one = setting[0] if len(setting) == 1 else None
            if one is not None and not fresh_in(one, j):
                for c in one.conds:
                    ctx.assume(z3.substitute(c, (j, w)), check=False)
                for fact in one.facts:
                    add_fact(ctx, lambda i, fact=fact, w=w: z3.substitute(fact(i), (j, w)))
            else:
                ctx.assume(z3.Or(*[o.at(j, w) for o in setting]), check=False)
            if not ctx.feasible():
                raise PathEnd('no iteration sets %s' % name)
            fr.locals[name] = value
        else:
            allowed = [o for o in allowed if isinstance(o.locals.get(name), Poison)]
            if name in before:
                fr.locals[name] = before[name]
            else:
                fr.locals.pop(name, None)
    for name in names - targets:
        if all(isinstance(o.locals.get(name), Poison) for o in segment):
            # assigned only by iterations which leave the loop
            if name in before:
                fr.locals[name] = before[name]
            else:
                fr.locals.pop(name, None)
    if not allowed:
        ctx.assume(n <= 0, check=False)
        if not ctx.feasible():
            raise PathEnd('every iteration sets a flag')
    facts = [(lambda i, o=o: o.at(j, i)) for o in allowed]
    add_fact(ctx, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.Or(*[f(i) for f in facts]) if facts else z3.BoolVal(False)))


def fresh_in(o, j):
    e = z3.And(*(list(o.conds) + [f(z3.Int('each!')) for f in o.facts])) if o.conds or o.facts else z3.BoolVal(True)
    return fresh_names(e, o.counter, j)


def by_invariant(interp, s, fr, items, establish, havoc, preserved, extra=()):
    """A for loop by its invariant: established before it, kept by every step.

    havoc(k) gives the state before step k (0 <= k <= n, any k); preserved(k)
    states the obligations that the state is that before step k.
    """
    ctx = interp.ctx
    n = models.length_term(items)
    establish()
    k = z3.Int(ctx.name('k'))
    ctx.assume(z3.And(k >= 0, k <= n), check=False)
    for name in (assigned(s.body) | target_names(s.target)):
        fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
    havoc(k)
    if ctx.branch(k < n):
        interp.assign(s.target, models.index_list(interp, items, k), fr)
        try:
            interp.block(s.body, fr)
        except Continue:
            pass
        except Break:
            return
        preserved(k)
        raise PathEnd('step of the invariant')
    ctx.assume(k == n, check=False)
    interp.block(s.orelse, fr)


def implied(segment, j, i, guard):
    """At index i one of the normal outcomes applies"""
    alts = [o.at(j, i) for o in segment]
    return z3.Implies(guard, z3.Or(*alts) if alts else z3.BoolVal(False))


def add_fact(ctx, fact):
    """fact(i) holds for every i"""
    ctx.forall.append(fact)


def summarise(interp, outcomes, j, n, fr, names, before, items):
    """Refuse bodies whose effects the rule cannot represent"""
    for o in outcomes:
        for t in o.trace:
            if t[0] in ('w', 'l'):
                obj = t[1]
                interp.unsupported('loop body in %s writes to %r' % (fr.name, obj if not isinstance(obj, (list, dict)) else type(obj)))
            if t[0] == 'yield':
                interp.unsupported('generator over a sequence of unknown length in %s' % fr.name)
        if o.kind == 'normal':
            pass


def subst_value(interp, v, j, k):
    if isinstance(v, SAny):
        return interp.from_v(z3.substitute(v.z, (j, k)), v.cls)
    if isinstance(v, Obj):
        if getattr(v, 'term', None) is not None:
            return interp.materialise(z3.substitute(v.ref, (j, k)), v.cls)
        return v
    if isinstance(v, (SInt, SReal, SBool, SStr)):
        return type(v)(z3.substitute(v.z, (j, k)))
    if isinstance(v, SList):
        return SList(z3.substitute(v.seq, (j, k)), v.label, v.codec)
    if type(v) is tuple:
        return tuple(subst_value(interp, x, j, k) for x in v)
    if type(v) is list:
        return interp.make([subst_value(interp, x, j, k) for x in v])
    if type(v) is dict:
        return {a: subst_value(interp, x, j, k) for a, x in v.items()}
    return v


def subst_event(interp, t, j, k):
    return tuple(subst_value(interp, x, j, k) if not isinstance(x, str) else x for x in t)


def counting_loop(interp, s, fr):
    """while i < E [and ...]: ...; i += 1 is a for loop over range(i, E), for an E of unknown value

    Provided that only its last statement changes i, that nothing in E is assigned in it and that it
    does not continue early; where the loop is not left early, i is E at its end (or as before, if more).
    """
    tests = list(s.test.values) if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
    def bound(t):
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            a, b = b, a
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(a, ast.Name):
            return None
        if isinstance(b, ast.Name) or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and len(b.args) == 1 and isinstance(b.args[0], ast.Name) and not b.keywords:
            return a, b, isinstance(t.ops[0], ast.NotEq)
    found = bound(tests[0])
    if found is None or s.orelse or not s.body:
        return None
    i, e, unequal = found
    last = s.body[-1]
    if not isinstance(last, ast.AugAssign) or not isinstance(last.op, ast.Add) or not isinstance(last.target, ast.Name) or last.target.id != i.id \
            or not isinstance(last.value, ast.Constant) or last.value.value != 1:
        return None
    body = s.body[:-1]
    changed = assigned(body)
    if i.id in changed or any(isinstance(n, ast.Name) and n.id in changed for n in ast.walk(e)):
        return None
    if any(isinstance(n, ast.Continue) for b in body for n in ast.walk(b)):
        return None
    if isinstance(e, ast.Call):
        # the length of a list the loop may change is not the same all along
        if mutated(body, e.args[0].id) or 'len' in fr.locals or 'len' in fr.glob:
            return None
    from .values import SInt
    start, stop = fr.locals.get(i.id), interp.ev(e, fr)
    if type(start) is not int or not isinstance(stop, SInt) or unequal and interp.ctx.feasible(stop.z < start):
        return None
    for rest in reversed(tests[1:]):
        body = [ast.If(ast.UnaryOp(ast.Not(), rest), [ast.Break()], [])] + body
    end = ast.Assign([ast.Name(i.id, ast.Store())], ast.IfExp(ast.Compare(ast.Name(i.id + '!stop', ast.Load()), [ast.Gt()], [ast.Constant(start)]), ast.Name(i.id + '!stop', ast.Load()), ast.Constant(start)))
    fr.locals[i.id + '!stop'] = stop
    fr.locals[i.id + '!range'] = range
    loop = ast.For(ast.Name(i.id, ast.Store()), ast.Call(ast.Name(i.id + '!range', ast.Load()), [ast.Constant(start), ast.Name(i.id + '!stop', ast.Load())], []), body or [ast.Pass()], [end])
    ast.copy_location(loop, s)
    for n in ast.walk(loop):
        if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)):
            ast.copy_location(n, s)
    ast.fix_missing_locations(loop)
    return loop


def mutated(body, name):
    """May the loop change the list of that name (a method of it is called, or an item of it is assigned or deleted)?"""
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and not isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in n.args):
                return True
    return False


def while_spec(interp, s, fr):
    for spec in interp.loop_specs:
        r = spec(interp, s, fr, None)
        if r is not NotImplemented:
            return True
    return False


def comprehension(interp, e, fr, kind):
    from .interp import Frame
    gens = e.generators
    inner = Frame(fr.name + '.<comp>', fr.glob, fr, None, fr.clsname)
    inner.first = fr.first
    out = []
    def rec(i):
        if i == len(gens):
            if kind == 'dict':
                out.append((interp.ev(e.key, inner), interp.ev(e.value, inner)))
            else:
                out.append(interp.ev(e.elt, inner))
            return
        g = gens[i]
        items = interp.iterate(interp.ev(g.iter, inner if i else fr))
        if isinstance(items, (SList, LazyList)):
            if len(gens) == 1:
                raise Symbolic(items, g)
            interp.unsupported('nested comprehension over a list of unknown length')
        for x in items:
            interp.assign(g.target, x, inner)
            if all(interp.truth(interp.ev(c, inner)) for c in g.ifs):
                rec(i + 1)
    try:
        rec(0)
    except Symbolic as sym:
        return symbolic_comp(interp, e, inner, sym.items, sym.g, kind)
    if kind == 'dict':
        if has_sym([k for k, v in out]) :
            d = SDict(False, 'dict')
            for k, v in out:
                interp.dict_store(d, k, v)
            return d
        return interp.make(dict(out))
    return interp.make(out)


class Symbolic(Exception):
    def __init__(self, items, g):
        self.items, self.g = items, g


class FilterList(Heap):
    """[elt for x in items if cond]: known only through its members"""
    cls = list
    def __init__(self, items, cond, elt, label='filtered'):
        self.items, self.cond, self.elt, self.label = items, cond, elt, label


def symbolic_comp(interp, e, inner, items, g, kind):
    """Comprehension over a list of unknown length: items are found on demand"""
    ctx = interp.ctx
    if hasattr(items, 'comprehend') and (kind != 'dict' or hasattr(items, 'as_dict')):
        return items.comprehend(interp, e, inner, g, kind)
    if kind == 'dict':
        interp.unsupported('dictionary comprehension over a list of unknown length')
    n = models.length_term(items)
    j = z3.Int(ctx.name('c'))
    snapshot = dict(inner.locals)
    base = SList(items.seq, items.label, items.codec) if isinstance(items, SList) else items
    def value(i):
        saved = dict(inner.locals)
        inner.locals = dict(snapshot)
        try:
            interp.assign(g.target, models.index_list(interp, base, i), inner)
            return interp.ev(e.elt, inner)
        finally:
            inner.locals = saved
    if g.ifs:
        handler = interp.class_contracts.get(('filter', None))
        if handler:
            return handler(interp, e, inner, base, g, value)
        interp.unsupported('filtering a list of unknown length')
    # can an element's evaluation fail, or have effects?
    def run():
        ctx.assume(z3.And(j >= 0, j < n), check=True)
        return value(j)
    if not ctx.feasible(n > 0):
        return interp.make([])
    outcomes = sub_explore(interp, run, inner)
    effects = interp.class_contracts.get(('effects', None), ())
    recorded = False
    for o in outcomes:
        for t in o.trace:
            if t[0] in effects:
                recorded = True
            elif t[0] in ('w', 'l', 'send', 'connect', 'call', 'yield'):
                if t[0] == 'w' and (getattr(t[1], 'fresh_local', False) or getattr(t[1], 'fresh', False)):
                    continue
                interp.unsupported('comprehension over a list of unknown length has effects')
    if recorded:
        ctx.trace.append(('foreach', j, n, [o for o in outcomes if o.kind == 'normal'], base))
        evaluate = value
        def value(i):
            # the effects of the iterations are those recorded
            mark = len(ctx.trace)
            v = evaluate(i)
            del ctx.trace[mark:]
            return v
    raising = [o for o in outcomes if o.kind == 'raise']
    segment = [o for o in outcomes if o.kind == 'normal']
    if raising:
        choice = ctx.choose(['ok'] + ['raise%d' % i for i in range(len(raising))])
        if choice != 'ok':
            o = raising[int(choice[5:])]
            k = z3.Int(ctx.name('raise'))
            for c in o.conds:
                ctx.assume(z3.substitute(c, (j, k)), check=False)
            if not ctx.feasible():
                raise PathEnd('infeasible')
            add_fact(ctx, lambda i: implied(segment, j, i, z3.And(i >= 0, i < k)))
            raise o.value
    if segment or outcomes:
        add_fact(ctx, lambda i: implied(segment, j, i, z3.And(i >= 0, i < n)))
    # unique elementwise term: the result is a sequence again
    if len(segment) == 1 and isinstance(segment[0].value, SAny) and isinstance(items, SList) and \
            z3.eq(z3.simplify(segment[0].value.z), z3.simplify(items.seq[j])):
        return SList(items.seq, items.label)
    r = LazyList(n, value, 'comprehension')
    r.source = base
    return r


def for_all(interp, it):
    interp.unsupported('all() over unknown number of items')
