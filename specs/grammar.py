"""The productions of the grammar of /repo (vrml/vrml97/parser.py) executed on texts of unknown content

The grammar is read by simpleparse from the text in /repo; its elements are executed here with the
meaning simpleparse documents for them (first choice that matches, greedy repetition, '!' for an error on
failure), on texts built of segments: single characters out of a set, runs of characters out of a set, and
repetitions of items. Whatever a production looks at is split by cases through ctx.choose, so that the
paths together cover every text.
"""


class CharSet(object):
    """A set of characters: the ones given, or all but those"""
    def __init__(self, chars, negative=False):
        self.chars, self.negative = frozenset(chars), negative
    def __and__(self, other):
        a, b = self, other
        if a.negative and b.negative:
            return CharSet(a.chars | b.chars, True)
        if a.negative:
            a, b = b, a
        if b.negative:
            return CharSet(a.chars - b.chars)
        return CharSet(a.chars & b.chars)
    def __invert__(self):
        return CharSet(self.chars, not self.negative)
    def __sub__(self, other):
        return self & ~other
    def empty(self):
        return not self.negative and not self.chars
    def within(self, other):
        return (self - other).empty()
    def apart(self, other):
        return (self & other).empty()
    def __repr__(self):
        return '[%s%s]' % ('^' if self.negative else '', ''.join(sorted(self.chars)))


class Segment(object):
    """A part of a text; 'after' are the segments which it turned out to be"""
    after = None
    def __init__(self):
        self.next = None


class Char(Segment):
    """One character out of a set; origin: what it stands for"""
    def __init__(self, chars, origin=None):
        Segment.__init__(self)
        self.set = chars if isinstance(chars, CharSet) else CharSet(chars)
        self.origin = origin
    def __repr__(self):
        return repr(self.set)


class Run(Segment):
    """Any number of characters out of a set"""
    def __init__(self, chars):
        Segment.__init__(self)
        self.set = chars if isinstance(chars, CharSet) else CharSet(chars)
    def __repr__(self):
        return repr(self.set) + '*'


class Star(Segment):
    """Any number of items; make(star) gives the segments of the next item (None: there can be none), the state after it being in star.state"""
    def __init__(self, make, state=None, label='items'):
        Segment.__init__(self)
        self.make, self.state, self.label = make, state, label
        self.item = None
    def __repr__(self):
        return '<%s %r>' % (self.label, self.state)


class Mark(Segment):
    """Where an item of a repetition begins (or, item None, where there turned out to be none)"""
    def __init__(self, star):
        Segment.__init__(self)
        self.star = star
    def __repr__(self):
        return ''


class Atom(Segment):
    """A text that one production reads (proved on its own); first: the characters it may begin with"""
    def __init__(self, tag, first, data=None):
        Segment.__init__(self)
        self.tag, self.data = tag, data
        self.set = first if isinstance(first, CharSet) else CharSet(first)
    def __repr__(self):
        return '<%s %r>' % (self.tag, self.data)


class End(Segment):
    """The end of what is known: nothing is ever read from here"""
    def __repr__(self):
        return '$'


class Nowhere(object):
    """What follows the last character: no character of any set"""
    def within(self, other):
        return False
    def apart(self, other):
        return True
    def __repr__(self):
        return 'EOF'


class Final(Segment):
    """The end of the text"""
    set = Nowhere()
    def __repr__(self):
        return 'EOF'


class Rest(Segment):
    """What is left of a text which the production reads to its end, up to the blanks after it (shown elsewhere, for smaller texts)"""
    def __init__(self, production):
        Segment.__init__(self)
        self.production = production
    def __repr__(self):
        return '<rest of %s>' % self.production


KEYWORDS = ['DEF', 'EXTERNPROTO', 'FALSE', 'IS', 'NULL', 'PROTO', 'ROUTE', 'Script', 'TO', 'TRUE', 'USE', 'eventIn', 'eventOut', 'exposedField', 'field']
KEYWORDS_X3D = sorted(KEYWORDS + ['initializeOnly', 'inputOnly', 'inputOutput', 'outputOnly'])


def keywords():
    return KEYWORDS_X3D if LANGUAGE[0] == 'vrml200x' else KEYWORDS


NAMECHARS = CharSet('][{}"\'#,.\\ ' + ''.join(chr(i) for i in range(17)), True)
# what VRML97 lets names begin with
NAMESTART = NAMECHARS - CharSet('0123456789:+-\x7f')


class Word(Segment):
    """What is left of a name, after the characters read of it; no keyword. set: what its next character may be, if there is one"""
    def __init__(self, read='', allowed=None, some=None):
        Segment.__init__(self)
        self.read = read
        self.set = (NAMECHARS if read else NAMESTART) if allowed is None else allowed
        self.some = not read if some is None else some
    def split(self, allowed):
        """It begins with a character of the set, or another, or is at its end"""
        s, out = self.read, []
        going = {k[len(s)] for k in keywords() if k.startswith(s) and len(k) > len(s)}
        here = self.set & allowed
        for c in sorted(going):
            if CharSet(c).within(here):
                out.append([Char(c), Word(s + c)])
        rest = here - CharSet(''.join(going))
        if not rest.empty():
            out.append([Char(rest), Run(NAMECHARS)])
        rest = self.set - allowed
        if not rest.empty():
            out.append([Word(s, rest, True)])
        if not self.some and s not in keywords():
            out.append([])
        return out
    def __repr__(self):
        return '<name %s>' % self.read


class Unknown(Exception):
    """The text is not known far enough for the production"""


class Refused(Exception):
    """The grammar raises a syntax error"""


def lit(text, origin=None):
    return [Char(c, origin) for c in text]


def link(segments, after=None):
    """Chain segments, the last one being followed by after"""
    for a, b in zip(segments, segments[1:] + [after]):
        a.next = b
    return segments[0] if segments else after


class Text(object):
    """A text in the course of being read"""
    def __init__(self, ctx, segments):
        self.ctx = ctx
        self.end = End()
        self.start = link(list(segments), self.end)
    def resolve(self, pos):
        while pos.after is not None:
            pos = pos.after
        return pos
    def replace(self, seg, segments):
        """seg turns out to be those segments"""
        seg.after = link(list(segments), seg.next)
    def ahead(self, pos):
        """The position with the marks in front of it passed"""
        pos = self.resolve(pos)
        while isinstance(pos, Mark):
            pos = self.resolve(pos.next)
        return pos
    def step(self, pos):
        """The position after the segment at pos"""
        return self.resolve(self.resolve(pos).next)
    def head(self, pos, allowed):
        """The position with a single character in front whose set is within or apart from allowed; None at the end"""
        ctx = self.ctx
        while True:
            pos = self.ahead(pos)
            if isinstance(pos, End):
                raise Unknown('end of the known text')
            if isinstance(pos, Final):
                return pos
            if isinstance(pos, Char):
                if pos.set.within(allowed) or pos.set.apart(allowed):
                    return pos
                if ctx.choose([True, False]):
                    self.replace(pos, [Char(pos.set & allowed, pos.origin)])
                else:
                    self.replace(pos, [Char(pos.set - allowed, pos.origin)])
            elif isinstance(pos, Run):
                if ctx.choose([True, False]):
                    self.replace(pos, [])
                else:
                    self.replace(pos, [Char(pos.set), Run(pos.set)])
            elif isinstance(pos, Star):
                self.expand(pos)
            elif isinstance(pos, Word) and pos.some and pos.set.apart(allowed):
                return pos
            elif isinstance(pos, Word):
                options = pos.split(allowed)
                if not options:
                    from pvc.engine import PathEnd
                    raise PathEnd('no such name')
                self.replace(pos, ctx.choose(options))
            elif isinstance(pos, Atom) and pos.set.apart(allowed):
                return pos
            else:
                raise Unknown(repr(pos))
    def expand(self, star):
        """Either no further item, or one and a repetition of the rest"""
        more = star.make(star)
        options = [([], None)] + (more or [])
        segments, state = self.ctx.choose(options)
        if segments:
            rest = Star(star.make, state, star.label)
            star.item = rest
            self.replace(star, [Mark(star)] + list(segments) + [rest])
        else:
            self.replace(star, [Mark(star)])
    def between(self, a, b):
        """The segments from a to b"""
        out = []
        a, b = self.resolve(a), self.resolve(b)
        while a is not b:
            if isinstance(a, End):
                raise Unknown('beyond the end')
            if not isinstance(a, Mark):
                out.append(a)
            a = self.step(a)
        return out
    def string(self, a, b):
        """The text between, if it is known character by character"""
        out = ''
        for s in self.between(a, b):
            if not isinstance(s, Char) or s.set.negative or len(s.set.chars) != 1:
                return None
            out += list(s.set.chars)[0]
        return out


class Node(object):
    """Part of the parse tree"""
    def __init__(self, tag, start, stop, children):
        self.tag, self.start, self.stop, self.children = tag, start, stop, children
    def __repr__(self):
        return '<%s %r>' % (self.tag, self.children)


class Many(object):
    """Any number of consecutive parts of the tree, from a repetition of items: each is one of those seen"""
    def __init__(self, star):
        self.star = star
    def __repr__(self):
        return '<any number for %s>' % self.star.label


_generators = {}
LANGUAGE = ['vrml97']


def of_language(language, harness):
    """The harness with the grammar of the language"""
    def run(ctx):
        LANGUAGE[0] = language
        try:
            return harness(ctx)
        finally:
            LANGUAGE[0] = 'vrml97'
    return run


def generator():
    """The grammar of /repo as simpleparse reads it"""
    import importlib
    from simpleparse import simpleparsegrammar
    key = importlib.import_module('vrml.%s.parser' % LANGUAGE[0]).grammar
    if key not in _generators:
        _generators[key] = simpleparsegrammar.Parser(key).generator
    return _generators[key]


class Peg(object):
    """One run of productions over a text. on_item(star, nodes) is called for every item of a repetition which a repeated group reads"""
    def __init__(self, ctx, text, on_item=None, stop=None):
        self.ctx, self.text, self.on_item = ctx, text, on_item
        self.generator = generator()
        self.stop = stop or {}
        self.depth = 0
        self.names = []
    def production(self, name, pos):
        self.names.append(name)
        r = self.match(self.generator.getRootObject(name), pos)
        self.names.pop()
        if r is None:
            return None
        pos2, nodes = r
        return pos2, Node(name, pos, pos2, nodes)
    def match(self, e, pos, once=False):
        """(position after, parts of the tree) or None"""
        from simpleparse import objectgenerator as og
        if getattr(e, 'lookahead', 0):
            if e.repeating or e.optional or getattr(e, 'negative', 0) and self.charset(e) is None:
                raise Unknown('lookahead at a group')
            return (pos, []) if self.single(e, pos) is not None else None
        r = self.repeat(e, pos) if (e.repeating or e.optional) and not once else self.single(e, pos)
        if r is None and getattr(e, 'errorOnFail', None):
            raise Refused('no %s in %s' % (e.errorOnFail.expected, e.errorOnFail.production))
        return r
    def repeat(self, e, pos):
        from simpleparse import objectgenerator as og
        if not e.repeating:
            r = self.single(e, pos)
            return r if r is not None else (pos, [])
        chars = self.charset(e)
        if chars is not None:
            return self.span(chars, pos, e.optional)
        nodes, count = [], 0
        while True:
            here = self.text.resolve(pos)
            if isinstance(here, Star):
                self.text.expand(here)
                here = self.text.resolve(here)
            if isinstance(here, Mark):
                star = here.star
                if star.item is None:
                    if not self.reads(e, star):
                        break
                    # none or any number of them were read
                    nodes.append(Many(star))
                    if not count and not e.optional:
                        count = self.ctx.choose([1, 0])
                    pos = here.next
                    continue
                r = self.single(e, here)
                if r is None:
                    break
                ctx = self.ctx
                ok = r is not None and self.text.resolve(r[0]) is self.text.resolve(star.item)
                ctx.check('every one of the %s is read as one element' % star.label, ok, 'read %s' % ('nothing' if r is None else self.text.between(here, r[0])))
                if ok and self.on_item:
                    self.on_item(self.text, star, r[1])
                from pvc.engine import PathEnd
                raise PathEnd('one item of the repetition, by induction all')
            r = self.single(e, pos)
            if r is None:
                break
            pos2, more = r
            if self.text.resolve(pos2) is here:
                break
            pos, count = pos2, count + 1
            nodes += more
            if count > 60:
                raise Unknown('long repetition')
        if not count and not e.optional:
            return None
        return pos, nodes
    def reads(self, e, star):
        """Does the repeated element read items of the repetition (rather than stop in front of them)?"""
        from pvc import loops
        class Here(object):
            ctx = self.ctx
        found = set()
        for i in range(len(star.make(star))):
            def run():
                segments, state = star.make(star)[i]
                old, names, depth = self.text, list(self.names), self.depth
                self.text = Text(self.ctx, list(segments) + [Star(star.make, state, star.label)])
                try:
                    return self.single(e, self.text.start) is not None
                except Unknown:
                    return True
                finally:
                    self.text, self.names, self.depth = old, names, depth
            for o in loops.sub_explore(Here, run):
                if o.kind != 'normal':
                    raise Unknown('reading one of the %s fails' % star.label)
                found.add(o.value)
        if len(found) > 1:
            raise Unknown('some of the %s are read' % star.label)
        return True in found
    def span(self, chars, pos, optional):
        """The longest run of characters of the set"""
        text, count, last = self.text, 0, pos
        while True:
            pos = text.ahead(pos)
            if isinstance(pos, Word) and pos.set.within(chars) and NAMECHARS.within(chars) and (count or optional or pos.some):
                # the rest of the name
                pos = last = pos.next
                count += 1
                continue
            if isinstance(pos, Run):
                if pos.set.within(chars):
                    # the whole of the run, however long it is
                    after = text.ahead(pos.next)
                    while isinstance(after, Run) and after.set.within(chars):
                        after = text.ahead(after.next)
                    if count or optional or isinstance(after, Char) and after.set.within(chars):
                        pos = last = pos.next
                        continue
                elif not pos.set.apart(chars):
                    # characters of the set, then nothing or a character outside
                    if text.ctx.choose([True, False]):
                        text.replace(pos, [Run(pos.set & chars)])
                    else:
                        text.replace(pos, [Run(pos.set & chars), Char(pos.set - chars), Run(pos.set)])
                    continue
            if isinstance(pos, End):
                if count or optional:
                    raise Unknown('run up to the end of the known text')
            pos = text.head(pos, chars)
            if not pos.set.within(chars):
                break
            pos = last = pos.next
            count += 1
        if not count and not optional:
            return None
        return last, []
    def whole_name(self, production, word):
        """Does the production read any name up to its end?"""
        from simpleparse import objectgenerator as og
        e = self.generator.getRootObject(production)
        if not isinstance(e, og.SequentialGroup) or len(e.children) != 2:
            return False
        a, b = e.children
        first, more = self.charset(a), self.charset(b)
        if first is None or more is None or a.repeating or a.optional or not (b.repeating and b.optional):
            return False
        end = self.text.ahead(word.next)
        while isinstance(end, Run) and end.set.apart(more):
            end = self.text.ahead(end.next)
        return isinstance(end, (Char, Final)) and end.set.apart(more) and NAMESTART.within(first) and NAMECHARS.within(more)
    def keyword(self, elements, i):
        """Is that element a keyword, followed by what no name goes on with?"""
        from simpleparse import objectgenerator as og
        def literals(e):
            if getattr(e, 'negative', 0) or e.optional or e.repeating or getattr(e, 'lookahead', 0) or getattr(e, 'errorOnFail', None):
                return None
            if isinstance(e, og.FirstOfGroup):
                found = [literals(c) for c in e.children]
                return None if None in found else sum(found, [])
            return [e.value] if type(e) is og.Literal else None
        def ends(e):
            if isinstance(e, og.Name):
                if e.value == 'EOF':
                    return True
                return not e.optional and not e.repeating and ends(self.generator.getRootObject(e.value))
            if isinstance(e, og.FirstOfGroup):
                return not e.optional and not e.repeating and all(ends(c) for c in e.children)
            return isinstance(e, og.Range) and getattr(e, 'lookahead', 0) and not e.optional and not e.repeating and self.charset(e).apart(NAMECHARS)
        words = literals(elements[i])
        return bool(words) and all(w in keywords() for w in words) and i + 1 < len(elements) and ends(elements[i + 1])
    def charset(self, e):
        from simpleparse import objectgenerator as og
        if isinstance(e, og.Range) or (isinstance(e, og.Literal) and len(e.value) == 1):
            return CharSet(e.value, bool(e.negative))
    def single(self, e, pos):
        from simpleparse import objectgenerator as og
        chars = self.charset(e)
        if chars is not None:
            pos = self.text.head(pos, chars)
            return (pos.next, []) if pos.set.within(chars) else None
        if getattr(e, 'negative', 0):
            raise Unknown('negative group')
        if isinstance(e, og.CILiteral):
            raise Unknown('case insensitive literal')
        if isinstance(e, og.Literal):
            for c in e.value:
                pos = self.text.head(pos, CharSet(c))
                if not pos.set.within(CharSet(c)):
                    return None
                pos = pos.next
            return pos, []
        if isinstance(e, og.FirstOfGroup):
            for c in e.children:
                r = self.match(c, pos)
                if r is not None:
                    return r
            return None
        if isinstance(e, og.SequentialGroup):
            nodes = []
            for i, c in enumerate(e.children):
                here = self.text.ahead(pos)
                if isinstance(here, Rest):
                    last = e.children[-1]
                    if here.production != self.names[-1] or here.production != 'vector' and (not isinstance(last, og.Name) or last.value != 'ts'):
                        raise Unknown(repr(here))
                    if here.production == 'vector':
                        # (no blanks are part of it)
                        return here.next, nodes
                    r = self.match(last, here.next)
                    return r[0], nodes + r[1]
                if isinstance(here, Word) and not here.read and here.some and here.set.within(NAMESTART) and self.keyword(e.children, i):
                    # another name; if it begins with the keyword, it goes on where the keyword has to end
                    return None
                r = self.match(c, pos)
                if r is None:
                    return None
                pos, more = r
                nodes += more
            return pos, nodes
        if isinstance(e, og.Name) and e.value == 'EOF':
            # head refuses to tell at the end of what is known
            if isinstance(self.text.head(pos, CharSet('', True)), Final):
                return pos, []
            return None
        if isinstance(e, og.Name):
            here = self.text.ahead(pos)
            if isinstance(here, Atom) and here.tag == e.value:
                return here.next, [Node(e.value, here, here.next, [])]
            if isinstance(here, Word) and not here.read and here.some and self.whole_name(e.value, here):
                return here.next, [Node(e.value, here, here.next, [])]
            if e.value in self.stop:
                r = self.stop[e.value](self, pos)
                return r if r is None else (r[0], [Node(e.value, pos, r[0], r[1])])
            target = self.generator.getRootObject(e.value)
            self.depth += 1
            if self.depth > 60:
                raise Unknown('deep recursion')
            self.names.append(e.value)
            r = self.match(target, pos)
            self.names.pop()
            self.depth -= 1
            if r is None:
                return None
            if not e.report or not target.report:
                return r[0], []
            return r[0], [Node(e.value, pos, r[0], r[1])]
        raise Unknown('%s in the grammar' % type(e).__name__)
