PROPERTY = 'C12'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('Writing: SFString_vrmlstr and MFString_vrmlstr are executed on any text and any list of texts; replacing, or splitting and joining, at single characters maps every '
               'character of a text on its own, so that what is written is known as a word over character classes. Reading: the productions Field and SFString of the grammar in /repo '
               'are executed, as simpleparse defines them, on that word followed by any attribute or closing brace, the repetitions by induction: every piece of the text is read as one '
               'element, and the handlers in parseprocessor.py, executed on any list of elements by invariants of their loops, turn each piece back into the very characters it was '
               'written for, in order. Lists are read back item by item.')
BOUNDED = ['bounded: whole scenes with random strings and lists of strings (every control character, quotes, backslashes, brackets, comment marks, keywords, other planes) written, parsed '
           'and compared: quick about 2000, thorough 40000 scenes']
TRUSTED = ['simpleparse and its tag engine: meaning of the elements of the grammar as documented (first alternative that matches, greedy repetition)',
           'str.split, str.join and str.replace of CPython at a single character', 'StringIO']
ASSUMPTIONS = ['no field is called like a keyword of VRML97 (TRUE, DEF, USE ...)', 'the separators and indents the lineariser is configured with are blanks, line feeds, tabs and commas']
# --- end of meta
from common import *

BLANK = ' \t\n,'
LETTERS = 'abcdefghijklmnopqrstuvwxyz'


def follow(ctx):
    """What may come after the value of an attribute: another attribute, or the end of the node"""
    from grammar import Char, Run, CharSet, lit
    name = CharSet('][{}"\'#,.\\ ' + ''.join(chr(i) for i in range(17)), True)
    if ctx.choose([True, False]):
        return lit('\n') + [Run('\t ')] + lit('}'), '}'
    return lit('\n') + [Run('\t ')] + [Char(LETTERS), Run(name)] + lit('\t') + [Char('"[-.0123456789' + LETTERS + LETTERS.upper())], LETTERS


def names_end_values(value):
    """What a production reads depends on the text from there on only: where the name of any field comes, no further element of a value is read"""
    def run(ctx):
        import grammar as g
        from pvc.engine import Unsupported
        start = g.Char('"[-.0123456789' + LETTERS + LETTERS.upper())
        word = g.Word()
        text = g.Text(ctx, g.lit(value) + g.lit('\n') + [g.Run('\t ')] + [word, g.Char('\t'), start])
        try:
            r = g.Peg(ctx, text).production('Field', text.start)
        except g.Refused as err:
            ctx.check('a name after a value is no syntax error', False, str(err))
            return
        except g.Unknown as err:
            raise Unsupported('grammar: %s' % err)
        ctx.cover('name')
        ctx.check('a value is read', r is not None)
        if r is not None:
            ctx.check('a name is no part of the value in front of it', text.ahead(r[0]) is text.ahead(word) and len(r[1].children) == 1, repr(r[1]))
    return run


def linvalues(ctx, T, interp):
    from grammar import Run, Char
    out = {}
    for key, chars in [('subelspacer', BLANK), ('courtesyspace', ' '), ('curindent', ' \t'), ('indent', ' \t'), ('numsep', BLANK), ('full_element_separator', BLANK), ('mffieldsep', BLANK)]:
        s = ctx.str(key)
        T.known(s.z, lambda chars=chars, key=key: ([Char(chars)] if key == 'numsep' else []) + [Run(chars)])
        out[key] = s
    return out


def write(ctx, interp, T, value, F):
    """What the lineariser writes for a value of a field"""
    from vrml.vrml97 import linearise
    from pvc.values import Model
    from pvc import models
    written = []
    L = models.new_instance(interp, linearise.Lineariser)
    buffer = ctx.any('buffer', object)
    interp.class_contracts['attr', object, 'write'] = lambda interp, b: Model(lambda interp, args, kwargs: written.append(args[0]), 'buffer.write')
    interp.set_attr(L, 'buffer', buffer)
    interp.set_attr(L, 'linvalues', linvalues(ctx, T, interp))
    interp.set_attr(L, 'typecache', interp.make({}))
    f = interp.call(F, ['field', 1, '' if F.__name__ == 'SFString' else list])
    interp.call(interp.get_attr(L, '_sffield'), [value, f])
    return written


def slices(interp, ctx):
    """A text being parsed; its parts are terms slice(from, to)"""
    import z3
    from pvc.values import SStr, integer
    Slice = z3.Function('slice', z3.IntSort(), z3.IntSort(), z3.StringSort())
    buffer = ctx.any('buffer', str)
    def getitem(interp, b, key):
        if not isinstance(key, slice) or key.step is not None:
            interp.unsupported('character of the buffer')
        return SStr(Slice(integer(key.start), integer(key.stop)))
    interp.class_contracts['getitem', str] = getitem
    interp.class_contracts['getitem', None] = getitem
    from simpleparse import dispatchprocessor
    def get_string(interp, args, kwargs):
        tag, a, b, sub = interp.iterate_finite(args[0])
        return getitem(interp, buffer, slice(a, b))
    interp.contract(dispatchprocessor.getString, get_string, 'simpleparse getString')
    return buffer, Slice


def processor(interp, field_type):
    from vrml.vrml97 import parseprocessor
    from pvc import models
    P = models.new_instance(interp, parseprocessor.ParseProcessor)
    interp.set_attr(P, 'fieldTypeStack', interp.make([field_type]))
    return P


def single(ctx, interp, tag, field_type):
    """What the handler makes of a string of one element: ('slice', characters dropped in front, behind) or ('text', constant)"""
    import z3
    from pvc.values import SStr, SInt
    buffer, Slice = slices(interp, ctx)
    a, b = ctx.int('start'), ctx.int('stop')
    P = processor(interp, field_type)
    sub = interp.make([(tag, a, b, None)])
    r = interp.call(interp.get_attr(P, 'Field'), [('Field', 0, 1, interp.make([('SFString', ctx.int('from'), ctx.int('to'), sub)])), buffer])
    if field_type == 'MFString':
        items = interp.iterate_finite(r)
        ctx.check('one string is a list of one string', len(items) == 1)
        r = items[0]
    return meaning(r, a, b, Slice)


def meaning(r, a, b, Slice):
    import z3
    from pvc.values import SStr
    if isinstance(r, str):
        return ('text', r)
    if isinstance(r, SStr):
        z = z3.simplify(r.z)
        if z3.is_app(z) and z.decl().name() == 'slice':
            k, l = z3.simplify(z.arg(0) - a.z), z3.simplify(b.z - z.arg(1))
            if z3.is_int_value(k) and z3.is_int_value(l):
                return ('slice', k.as_long(), l.as_long())
    return ('other', repr(r))


def proofs(mode):
    import z3
    from vrml import fieldtypes as ft
    from vrml.vrml97 import parseprocessor
    from pvc.values import SStr, SInt, SList, LazyList, V, string, Num
    from pvc.engine import PyExc, PathEnd
    from pvc import loops, models
    from grammar import Char, Run, Star, Atom, Text, Peg, Many, Unknown, Refused, lit
    from texts import Texts
    out = []

    def element_tags():
        """The elements of which the grammar makes strings"""
        from grammar import generator
        from simpleparse import objectgenerator as og
        tags = []
        def walk(e):
            if isinstance(e, og.Name):
                if e.report and generator().getRootObject(e.value).report:
                    tags.append(e.value)
            for c in getattr(e, 'children', ()):
                walk(c)
        walk(generator().getRootObject('SFString'))
        return sorted(set(tags))

    def reading(ctx, segments, check):
        """Run the production Field on a value and what may follow"""
        after, first = follow(ctx)
        text = Text(ctx, segments + after)
        peg = Peg(ctx, text, on_item=check)
        try:
            r = peg.production('Field', text.start)
        except Refused as err:
            ctx.check('what is written is no syntax error', False, str(err))
            return None
        except Unknown as err:
            raise __import__('pvc.engine', fromlist=['x']).Unsupported('grammar: %s' % err)
        ctx.check('what is written is a value', r is not None)
        if r is None:
            return None
        end = text.resolve(r[0])
        ctx.check('the value is read up to what follows it', isinstance(end, Char) and end.set.within(__import__('grammar').CharSet(first)), repr(end))
        return r[1].children

    # ------------------------------------------------------------ one string
    def one_string(field_type):
        F = getattr(ft, field_type)
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            import functools
            interp.contract(functools.reduce, lambda interp, args, kwargs: ctx.int('length'), 'functools.reduce')
            value = ctx.str('value')
            what = value if field_type == 'SFString' else interp.make([value])
            written = write(ctx, interp, T, what, F)
            segments = [s for w in written for s in T.segments(w)]
            stars = [s for s in segments if isinstance(s, Star) and z3.eq(s.source, value.z)]
            ctx.check('the text is written once', len(stars) == 1 and len([s for s in segments if isinstance(s, Star)]) == 1, repr(segments))
            if not stars:
                return
            star = stars[0]
            def item(text, s, nodes):
                ctx.check('a piece of the text is one element', len(nodes) == 1, repr(nodes))
                if len(nodes) != 1:
                    return
                n = nodes[0]
                got = text.between(n.start, n.stop)
                interp2 = make_interp(ctx)
                D = single(ctx, interp2, n.tag, field_type)
                pieces = text.between(s, s.item)
                ctx.check('the element is the piece', got == pieces, '%r for %r' % (got, pieces))
                origin = pieces[0].origin
                if origin is not None:
                    ctx.cover('character that is escaped')
                    c = origin[0]
                    if D[0] == 'text':
                        ctx.check('the character is read back', D[1] == c, '%r for %r' % (D, c))
                    elif D[0] == 'slice':
                        kept = pieces[D[1]:len(pieces) - D[2]]
                        ctx.check('the character is read back', len(kept) == 1 and kept[0].set.chars == frozenset(c) and not kept[0].set.negative, '%r of %r for %r' % (D, pieces, c))
                    else:
                        ctx.check('the character is read back', False, repr(D))
                else:
                    ctx.cover('characters that are not escaped')
                    ctx.check('the characters are read back', D == ('slice', 0, 0), repr(D))
            children = reading(ctx, segments, item)
            if children is None:
                return
            ctx.cover('read')
            ok = len(children) == 1 and children[0].tag == 'SFString' and len(children[0].children) == 1 and isinstance(children[0].children[0], Many) and children[0].children[0].star is star
            ctx.check('one string is read', ok, repr(children))
        return run
    out.append(('writing and reading SFString', one_string('SFString'), dict(covers=['character that is escaped', 'characters that are not escaped', 'read'])))
    out.append(('writing and reading MFString of one text', one_string('MFString'), dict(covers=['character that is escaped', 'characters that are not escaped', 'read'])))

    out.append(('names end strings', names_end_values('"a"'), dict(covers=['name'])))

    # ------------------------------------------------------------ handlers
    def handler(field_type):
        def run(ctx):
            interp = make_interp(ctx)
            buffer, Slice = slices(interp, ctx)
            tags = element_tags()
            n = ctx.int('elements').z
            ctx.assume(n >= 0)
            Tag = z3.Function('tag', z3.IntSort(), z3.StringSort())
            A, B = z3.Function('start', z3.IntSort(), z3.IntSort()), z3.Function('stop', z3.IntSort(), z3.IntSort())
            sub = LazyList(n, lambda j: (SStr(Tag(j)), SInt(A(j)), SInt(B(j)), None), 'elements')
            P = processor(interp, field_type)
            tables = interp.make([('SFString', ctx.int('from'), ctx.int('to'), sub)])
            ghost = ctx.str('so far')
            Whole = z3.Function('decoded', z3.StringSort(), z3.StringSort())
            before = {}
            def accumulators(fr):
                return {k: v for k, v in fr.locals.items() if (isinstance(v, list) and type(v) is list and not v) or (isinstance(v, str) and v == '')}
            def rule(interp, stmt, fr, items):
                if items is not sub:
                    return NotImplemented
                acc = {}
                def establish():
                    acc.update(accumulators(fr))
                    # the one which the body adds to
                    used = {x.id for s in stmt.body for x in __import__('ast').walk(s) if isinstance(x, __import__('ast').Name)}
                    for k in list(acc):
                        if k not in used:
                            del acc[k]
                    ctx.check('the elements are added to an empty result', len(acc) == 1, repr(sorted(acc)))
                def havoc(k):
                    for name, v in acc.items():
                        if isinstance(v, list):
                            del v[:]
                            v.append(ghost)
                            fr.locals[name] = v
                        else:
                            fr.locals[name] = ghost
                def preserved(k):
                    for name, v in acc.items():
                        now = fr.locals[name]
                        got = now[1:] if isinstance(now, list) else None
                        if got is None:
                            parts = T.parts(now)
                            got = parts[1:] if parts and not isinstance(parts[0], str) and parts[0].eq(ghost.z) else [now]
                            got = [SStr(g) if z3.is_expr(g) else g for g in got]
                            ok = len(got) == 1
                        else:
                            ok = len(now) == 2 and now[0] is ghost
                        ctx.check('every element adds one piece', ok, repr(now))
                        if not ok:
                            return
                        for t in tags:
                            if ctx.feasible(Tag(k) == z3.StringVal(t)):
                                ctx.assume(Tag(k) == z3.StringVal(t))
                                ctx.cover(t)
                                m = meaning(got[0], SInt(A(k)), SInt(B(k)), Slice)
                                want = single(ctx, make_interp(ctx), t, field_type)
                                ctx.check('the piece is that of a string of this element alone', m == want and m[0] != 'other', '%r, %r' % (m, want))
                                return
                k0 = []
                def havoc2(k):
                    ctx.assume(z3.Or(*[Tag(k) == z3.StringVal(t) for t in tags]), check=False)
                    havoc(k)
                return loops.by_invariant(interp, stmt, fr, items, establish, havoc2, preserved)
            interp.loop_specs.insert(0, rule)
            T = Texts(ctx, interp)
            def join(interp, s, args, kwargs):
                return T.join(interp, s, args, kwargs)
            r = interp.call(interp.get_attr(P, 'Field'), [('Field', 0, 1, tables), buffer])
            ctx.cover('result')
            if field_type == 'MFString':
                items = interp.iterate_finite(r)
                ctx.check('one string for one string', len(items) == 1)
                r = items[0]
            parts = T.parts(r) if isinstance(r, (str, SStr)) else None
            ctx.check('the string is the pieces in order', parts is not None and len(parts) == 1 and not isinstance(parts[0], str) and z3.eq(parts[0], ghost.z), repr(r))
        return run
    out.append(('SFString handler', handler('SFString'), dict(covers=element_tags() + ['result'])))
    out.append(('MFString handler, elements of a string', handler('MFString'), dict(covers=element_tags() + ['result'])))

    def string_list_handler(ctx):
        """Strings of a list are read each on its own, in order"""
        interp = make_interp(ctx)
        buffer, Slice = slices(interp, ctx)
        T = Texts(ctx, interp)
        n = ctx.int('strings').z
        ctx.assume(n >= 0)
        M = z3.Function('elements of', z3.IntSort(), z3.IntSort())
        Tag = z3.Function('tag', z3.IntSort(), z3.IntSort(), z3.StringSort())
        A, B = [z3.Function(x, z3.IntSort(), z3.IntSort(), z3.IntSort()) for x in ('start', 'stop')]
        S, E = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('from', 'to')]
        inner = {}
        def sub(j):
            key = str(j)
            if key not in inner:
                inner[key] = LazyList(M(j), lambda i: (SStr(Tag(j, i)), SInt(A(j, i)), SInt(B(j, i)), None), 'elements')
                at[id(inner[key])] = j
            return inner[key]
        at = {}
        tables = LazyList(n, lambda j: ('SFString', SInt(S(j)), SInt(E(j)), sub(j)), 'strings')
        Decoded = z3.Function('decoded', z3.IntSort(), z3.StringSort())
        class Ghost(object):
            pass
        sofar = ctx.slist('strings so far')
        current = []
        def rule(interp, stmt, fr, items):
            if any(items is x for x in inner.values()):
                # proved above: the pieces in order
                acc = {k: v for k, v in fr.locals.items() if (type(v) is list and not v) or (isinstance(v, str) and v == '')}
                used = {x.id for s in stmt.body for x in __import__('ast').walk(s) if isinstance(x, __import__('ast').Name)}
                acc = {k: v for k, v in acc.items() if k in used}
                ctx.check('the elements are added to an empty result', len(acc) == 1, repr(sorted(acc)))
                for name, v in acc.items():
                    d = SStr(Decoded(at[id(items)]))
                    if isinstance(v, list):
                        v.append(d)
                    else:
                        fr.locals[name] = d
                return None
            if items is not tables:
                return NotImplemented
            acc = {}
            used = {x.id for s in stmt.body for x in __import__('ast').walk(s) if isinstance(x, __import__('ast').Name)}
            token = ctx.str('earlier strings')
            def establish():
                acc.update({k: v for k, v in fr.locals.items() if type(v) is list and not v and k in used})
                ctx.check('the strings are added to an empty list', len(acc) == 1, repr(sorted(acc)))
            def havoc(k):
                current.append(k)
                for name, v in acc.items():
                    del v[:]
                    v.append(token)
            def preserved(k):
                for name, v in acc.items():
                    now = fr.locals[name]
                    ok = len(now) == 2 and now[0] is token and isinstance(now[1], (str, SStr))
                    ctx.cover('step')
                    ctx.check('every string adds one item', ok, repr(now))
                    if ok:
                        parts = T.parts(now[1])
                        ctx.check('the item is the string read', len(parts) == 1 and not isinstance(parts[0], str) and z3.eq(parts[0], Decoded(k)), repr(now))
            current.append(None)
            loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
            inner['token'] = token
        interp.loop_specs.insert(0, rule)
        P = processor(interp, 'MFString')
        # the values of a field, and where an external prototype is found, are read alike
        of = ctx.choose(['Field', 'ExtProtoURL'])
        ctx.cover(of)
        r = interp.call(interp.get_attr(P, of), [(of, 0, 1, tables), buffer])
        ctx.cover('result')
        if isinstance(r, list):
            ctx.check('the list is the strings in order', (len(r) == 1 and r[0] is inner.get('token')) or (not r and not ctx.feasible(n > 0)), repr(r))
        else:
            ctx.check('a list is read', isinstance(r, LazyList))
            if isinstance(r, LazyList):
                j = ctx.int('j').z
                ctx.assume(z3.And(j >= 0, j < n))
                current.append(j)
                x = r.item(j)
                ctx.check('as many strings', r.n == n)
                ctx.check('the item is the string read', isinstance(x, SStr) and z3.eq(x.z, Decoded(j)), repr(x))
    out.append(('MFString handler, lists', string_list_handler, dict(covers=['result', 'Field', 'ExtProtoURL'])))

    # ------------------------------------------------------------ lists
    def many(ctx):
        interp = make_interp(ctx)
        T = Texts(ctx, interp)
        n = ctx.int('n').z
        ctx.assume(n != 1)
        ctx.assume(n >= 0)
        Item = z3.Function('item', z3.IntSort(), z3.StringSort())
        Quoted = z3.Function('quoted', z3.StringSort(), z3.StringSort())
        value = LazyList(n, lambda j: SStr(Item(j)), 'value')
        interp.class_contracts['isinstance', None] = lambda interp, v, cls: NotImplemented
        def quoted(interp, args, kwargs):
            return SStr(Quoted(string(args[0])))
        interp.contract(ft.SFString_vrmlstr, quoted, 'SFString_vrmlstr (proved)')
        import functools
        interp.contract(functools.reduce, lambda interp, args, kwargs: ctx.int('length'), 'functools.reduce')
        token = ctx.str('earlier items')
        done = []
        def list_of(v):
            """Is v the list of the items quoted, in order?"""
            j = ctx.int('j').z
            ctx.assume(z3.And(j >= 0, j < n))
            x = models.index_list(interp, v, j)
            ctx.check('every item is written as a string', isinstance(x, SStr) and z3.eq(z3.simplify(x.z), Quoted(Item(j))), repr(x))
            ctx.check('all items are written', models.length_term(v) == n)
        def rule(interp, stmt, fr, items):
            if not isinstance(items, LazyList):
                return NotImplemented
            used = {x.id for s in stmt.body for x in __import__('ast').walk(s) if isinstance(x, __import__('ast').Name)}
            acc = {k: list(v) for k, v in fr.locals.items() if type(v) is list and k in used}
            if len(acc) != 1:
                return NotImplemented
            name, start = list(acc.items())[0]
            L = fr.locals[name]
            done.append((start, items))
            def establish():
                ctx.check('before the items', all(isinstance(x, (str, SStr)) for x in start), repr(start))
            def havoc(k):
                if ctx.branch(k == 0):
                    L[:] = start
                else:
                    L[:] = start + [token]
            def preserved(k):
                had = start + ([token] if len(L) > len(start) and L[len(start)] is token else [])
                new = L[len(had):]
                ctx.check('every step adds', all(a is b for a, b in zip(L, had)) and len(new) >= 1, repr(L))
                x = models.index_list(interp, items, k)
                segs = []
                for p in new:
                    for q in T.parts(p):
                        segs.append(q)
                own = [q for q in segs if not isinstance(q, str) and z3.eq(z3.simplify(q), z3.simplify(string(x)))]
                ctx.check('the item is written once', len(own) == 1 and segs and segs[-1] is own[0], repr(new))
                # what is written in front of it separates
                T2 = [s for q in segs[:-1] for s in T.segments(q if isinstance(q, str) else SStr(q))]
                ctx.cover('step of the loop')
                from grammar import CharSet
                ctx.check('items are separated by blanks', all(isinstance(s, (Run, Char)) and s.set.within(CharSet(BLANK)) for s in T2), repr(T2))
            return loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
        interp.loop_specs.insert(0, rule)
        try:
            written = write(ctx, interp, T, value, ft.MFString)
        except PyExc as err:
            ctx.check('writing does not fail', False, str(err))
            return
        ctx.cover('empty' if not ctx.feasible(n > 0) else 'long' if done else 'short')
        # the items as segments
        def items_segments(sep):
            def make(star):
                return [([Atom('SFString', '"', 'item')] + sep() , None)]
            s = Star(make, None, 'strings')
            s.source = 'items'
            return [s, Atom('SFString', '"', 'last item')]
        joins = [p for w in written for p in T.parts(w) if not isinstance(p, str) and p.get_id() in T.joins]
        ctx.check('the items are written once', len(joins) + len(done) == (1 if ctx.feasible(n > 0) else 0), repr(written))
        for p in joins:
            s, v, _ = T.joins[p.get_id()]
            list_of(v)
            T.known(p, lambda s=s: items_segments(lambda: T.segments(s)))
        if done:
            start, items = done[0]
            list_of(items)
            T.known(token.z, lambda: [Run(BLANK)] + items_segments(lambda: [Run(BLANK)]))
            ctx.check('there are items', not ctx.feasible(n == 0))
        segments = [s for w in written for s in T.segments(w)]
        count = len([s for s in segments if isinstance(s, Star)])
        def item(text, s, nodes):
            ctx.cover('item')
            ctx.check('an item is read as one string', len(nodes) == 1 and nodes[0].tag == 'SFString' and isinstance(nodes[0].start, Atom), repr(nodes))
        children = reading(ctx, segments, item)
        if children is None:
            return
        if not count:
            ctx.check('nothing is written only for nothing', not ctx.feasible(n > 0))
            ctx.check('an empty list is read', children == [], repr(children))
        else:
            ctx.cover('items')
            ok = len(children) == 2 and isinstance(children[0], Many) and children[1].tag == 'SFString' and isinstance(children[1].start, Atom)
            ctx.check('the items are read, and nothing else', ok, repr(children))
    out.append(('writing and reading MFString', many, dict(covers=['empty', 'short', 'long', 'step of the loop', 'items', 'item'])))
    return out


# ---------------------------------------------------------------- whole scenes
NASTY = ['"', '\\', 'a', 'b', ' ', '#', '\n', '\r', '\t', '[', ']', '{', '}', ',', '\x00', '\x01', '\x1f', '\x7f', '\u00e9', '\u4e2d', '\U0001f600', 'USE ', '\\"', '\\\\', '"a', 'DEF',
         'DEF X Group {', '%s', '%(a)s', '\x1a', '\x85', '\u2028', '\ufeff', '\ud800', "'", '0', '.5', '-1', 'TRUE', 'NULL', '\\n', '\\t', '\\x41', '\\u0041', '#VRML V2.0 utf8\n', '}\n', 'http://a/b.wrl#v',
         'ROUTE a.b TO c.d', 'IS x', '\n\n', '\r\n', '\\\n', ', ', '[ ]', '""', '\x0b', '\x0c', '\xa0', '\u3000']


def cases(rnd, tier, mode):
    def text():
        n = rnd.choice([0, 1, 1, 2, 3, 5, 8, 20, 70, rnd.randrange(300)])
        alphabet = NASTY if rnd.random() < .8 else rnd.sample(NASTY, 3)
        return ''.join(rnd.choice(alphabet) if rnd.random() < .9 else chr(rnd.choice([rnd.randrange(128), rnd.randrange(256), rnd.randrange(0x3000), rnd.randrange(0x110000)])) for i in range(n))
    def texts():
        return [text() for i in range(rnd.choice([0, 1, 1, 2, 2, 3, 4, 8, 30]))]
    for i in range(0x180):
        yield dict(kind='node', type='WorldInfo', text=chr(i), list=[chr(i), 'x' + chr(i), chr(i) + 'x', chr(i) * 40], depth=0)
    for x in NASTY:
        yield dict(kind='node', type='Anchor', text=x, list=[x], depth=1)
    for a in ['', '"', '\\', '#', ' ', 'a']:
        for b in ['', '"', '\\', '#', ' ', 'a']:
            for c in ['', '"', '\\', 'n']:
                yield dict(kind='node', type='WorldInfo', text=a + b + c, list=[a, b, c], depth=0)
    for n in range(0, 30):
        yield dict(kind='node', type='WorldInfo', text='x' * n, list=['y' * 3] * n, depth=2)
        yield dict(kind='node', type='WorldInfo', text='x' * n, list=['\\'] * n, depth=0)
    for n in (54, 55, 56, 57, 58, 59, 60, 61, 62, 100, 1000):
        yield dict(kind='node', type='Anchor', text='x' * n, list=['y' * n], depth=0)
        yield dict(kind='node', type='Anchor', text='x' * n, list=['y' * (n - 5), 'z'], depth=1)
        yield dict(kind='node', type='Anchor', text='"' * n, list=['"' * n, '\\' * n], depth=1)
    for i in range(1200 if tier == 'quick' else 40000):
        yield dict(kind=rnd.choice(['node', 'node', 'node', 'proto', 'script', 'several', 'external']), type=rnd.choice(['WorldInfo', 'Anchor', 'Text', 'FontStyle']), text=text(), list=texts(), more=texts(),
                   depth=rnd.choice([0, 0, 1, 2, 6]))


_parser = []


def parse(text):
    from vrml.vrml97.parser import buildParser
    if not _parser:
        _parser.append(buildParser())
    ok, result, n = _parser[0].parse(text)
    assert ok and n == len(text), 'parsed %s of %s characters' % (n, len(text))
    return result[1]


def check_case(case):
    from vrml.vrml97 import basenodes, linearise, scenegraph
    from vrml import protofunctions
    names = dict(WorldInfo=('title', 'info'), Anchor=('description', 'url'), Text=(None, 'string'), FontStyle=('language', 'justify'))
    t, l, d = case['text'], case['list'], case['depth']
    kind = case['kind']
    a, b = names[case['type']]
    def make(t, l):
        return getattr(basenodes, case['type'])(**dict(([(a, t)] if a else []) + [(b, list(l))]))
    def nest(n):
        for i in range(d):
            n = basenodes.Transform(children=[n])
        return n
    def unnest(s):
        s = s.children[0]
        for i in range(d):
            s = s.children[0]
        return s
    want = []
    if kind == 'node':
        scene = scenegraph.SceneGraph(children=[nest(shaped(make(t, l)))])
    elif kind == 'several':
        nodes = [shaped(make(x, [x, t])) for x in case['more']] + [shaped(make(t, l))]
        scene = scenegraph.SceneGraph(children=[nest(basenodes.Group(children=nodes))])
    elif kind == 'proto':
        from vrml import node, field, fieldtypes
        source = '#VRML V2.0 utf8\nPROTO P [ field SFString one "" exposedField MFString many [ ] ] { Group { } }\nP { }'
        scene = parse(source)
        p = scene.children[0]
        p.one, p.many = t, list(l)
    elif kind == 'script':
        from vrml import field
        from vrml.vrml97 import script
        p = script.Script((field.newField('one', 'SFString', 0, t), field.newField('many', 'MFString', 0, list(l))), url=list(case['more']))
        scene = scenegraph.SceneGraph(children=[p])
    if kind == 'external':
        f = protofunctions.getField(basenodes.WorldInfo, 'info')
        text = '#VRML V2.0 utf8\nEXTERNPROTO E [ ] %s\nDEF N E { }\n' % f.vrmlstr(f.coerce(list(l)), linearise.Lineariser())
    else:
        text = linearise.linearise(scene)
    try:
        back = parse(text)
        if kind == 'external':
            if len(back.children) != 1 or back.getDEF('N') is not back.children[0]:
                return '%d nodes read; written: %r' % (len(back.children), text[-300:])
            return differ([(protofunctions.getExternalURL(back.getProto('E')), l)])
        if kind == 'node':
            n = unshaped(unnest(back))
            return differ([(getattr(n, a) if a else t, t), (getattr(n, b), l)])
        if kind == 'several':
            ns = [unshaped(n) for n in unnest(back).children]
            if len(ns) != len(nodes):
                return '%d nodes for %d' % (len(ns), len(nodes))
            return differ([(getattr(n, a) if a else x, x) for n, x in zip(ns, case['more'] + [t])] + [(getattr(n, b), [x, t]) for n, x in zip(ns, case['more'])] + [(getattr(ns[-1], b), l)])
        n = back.children[0]
        return differ([(n.one, t), (n.many, l)] + ([(n.url, case['more'])] if kind == 'script' else []))
    except Exception as err:
        return '%s: %s; written: %r' % (type(err).__name__, str(err)[:300], text[-300:])


def shaped(n):
    """Nodes which are no children are written within a shape"""
    from vrml.vrml97 import basenodes
    if isinstance(n, basenodes.Text):
        return basenodes.Shape(geometry=n)
    if isinstance(n, basenodes.FontStyle):
        return basenodes.Shape(geometry=basenodes.Text(fontStyle=n))
    return n


def unshaped(n):
    from vrml.vrml97 import basenodes
    if isinstance(n, basenodes.Shape):
        n = n.geometry
        return n.fontStyle if n.fontStyle else n
    return n


def differ(pairs):
    for got, want in pairs:
        if isinstance(want, list):
            if not isinstance(got, list) or list(got) != want or any(not isinstance(x, str) for x in got):
                return '%r was read for %r' % (list(got) if hasattr(got, '__iter__') else got, want)
        elif got != want or not isinstance(got, str):
            return '%r was read for %r' % (got, want)
    return None
