"""Texts of unknown content which the writing functions make: words over characters of known classes

Replacing or splitting and joining at single characters maps every character of a text on its own, so that a
sequence of such steps is known by what becomes of each character (a homomorphism of words). A term
map_{...}(s) stands for the text s with the characters given replaced by the texts given.
"""
import z3
from grammar import *


class Texts(object):
    def __init__(self, ctx, interp):
        self.ctx, self.interp = ctx, interp
        self.maps = {}          # name of the function -> replacements
        self.splits = {}
        self.joins = {}         # function name -> separator text, list
        self.kinds = {}         # id of a term -> function giving segments
        self.keep = []
        cc = interp.class_contracts
        cc['str', 'split'] = self.split
        cc['str', 'join'] = self.join
        cc['str', 'replace'] = self.replace
        cc['format', None] = self.format
    # ------------------------------------------------------------- mapping characters
    def mapping(self, z):
        """(text mapped, replacements) of a term"""
        if z3.is_app(z) and z.decl().name() in self.maps:
            return z.arg(0), self.maps[z.decl().name()]
        return z, {}
    def mapped(self, z, replacements):
        from pvc.values import SStr
        name = 'map_' + '_'.join('%x_%s' % (ord(c), '.'.join('%x' % ord(x) for x in t)) for c, t in sorted(replacements.items()))
        self.maps[name] = replacements
        return SStr(z3.Function(name, z3.StringSort(), z3.StringSort())(z))
    def replaced(self, z, char, text):
        source, m = self.mapping(z)
        new = {c: t.replace(char, text) for c, t in m.items()}
        if char not in m:
            new[char] = text
        return self.mapped(source, new)
    def split(self, interp, s, args, kwargs):
        from pvc.values import LazyList, SStr, string
        if len(args) != 1 or kwargs or not isinstance(args[0], str) or len(args[0]) != 1:
            interp.unsupported('split of a text other than at a character')
        n = self.ctx.int('pieces').z
        self.ctx.assume(n >= 1, check=False)
        F = z3.Function(self.ctx.name('piece'), z3.IntSort(), z3.StringSort())
        r = LazyList(n, lambda j: SStr(F(j)), 'pieces')
        self.splits[id(r)] = (string(s), args[0], r)
        return r
    def join(self, interp, s, args, kwargs):
        from pvc.values import SStr, string
        v = args[0]
        if id(v) in self.splits and isinstance(s, str):
            z, char, _ = self.splits[id(v)]
            return self.replaced(z, char, s)
        r = self.ctx.str('joined')
        self.joins[r.z.get_id()] = (s, v, r)
        return r
    def replace(self, interp, s, args, kwargs):
        from pvc.values import string
        if len(args) != 2 or kwargs or not all(isinstance(a, str) for a in args) or len(args[0]) != 1:
            interp.unsupported('replacement in a text other than of a character')
        return self.replaced(string(s), args[0], args[1])
    def format(self, interp, fmt, args):
        """Formatting with a text that is known in parts, none of the unknown ones having a per cent sign"""
        from pvc import models
        from pvc.values import SStr, string
        out = []
        items = list(args) if isinstance(args, tuple) else [args]
        for p in self.parts(fmt):
            if not isinstance(p, str):
                if any(not isinstance(s, (Char, Run)) or not s.set.apart(CharSet('%')) for s in self.segments(SStr(p))):
                    interp.unsupported('a format of unknown text')
                out.append(SStr(p))
                continue
            n = len([m for m in __import__('re').findall('%.', p) if m != '%%'])
            if isinstance(args, dict):
                out.append(models.format_percent(interp, p, args))
            else:
                if n > len(items):
                    interp.raise_(TypeError, 'not enough arguments for format string')
                out.append(models.format_percent(interp, p, tuple(items[:n])))
                items = items[n:]
        if items and not isinstance(args, dict):
            interp.raise_(TypeError, 'not all arguments converted during string formatting')
        return SStr(z3.Concat(*[string(x) for x in out])) if len(out) > 1 else out[0]
    # ------------------------------------------------------------- as segments
    def parts(self, v):
        """A text as a list of constant texts and terms"""
        from pvc.values import SStr
        if isinstance(v, str):
            return [v] if v else []
        if isinstance(v, SStr):
            v = v.z
        if z3.is_string_value(v):
            return self.parts(constant(v))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            out = []
            for c in v.children():
                for p in self.parts(c):
                    if out and isinstance(out[-1], str) and isinstance(p, str):
                        out[-1] += p
                    else:
                        out.append(p)
            return out
        return [v]
    def known(self, z, segments):
        """Let the term z stand for the segments which segments() gives"""
        self.kinds[z.get_id()] = (segments, z)
    def segments(self, v, source=None):
        """The segments of a text; source(z): those of a source text replaced as in the mapping"""
        out = []
        for p in self.parts(v):
            if isinstance(p, str):
                out += lit(p)
            elif p.get_id() in self.kinds:
                out += self.kinds[p.get_id()][0]()
            else:
                z, m = self.mapping(p)
                out.append(self.word(z, m))
        return out
    def word(self, z, m):
        """Any text, its characters replaced; its items remember their origin"""
        if any(not t for t in m.values()):
            self.ctx.check('no character is lost', False, repr(m))
        other = CharSet(m, True)
        def make(star):
            options = [(lit(t, origin=(c, i)), 'special') for i, (c, t) in enumerate(sorted(m.items()))]
            if star.state != 'run':
                options.append(([Char(other), Run(other)], 'run'))
            return options
        s = Star(make, None, 'characters')
        s.source = z
        return s


class Words(object):
    """Texts known as sequences of characters out of sets and runs of them, taken apart from both ends

    Whatever an operation has to know is found by cases; a part of a text consists of the very segments of
    the text, so that what became of each of them can be told.
    """
    def __init__(self, ctx, interp, texts):
        self.ctx, self.interp, self.texts = ctx, interp, texts
        self.words = {}
        interp.class_contracts['word', None] = self.handle
    def new(self, segments):
        from pvc.values import SStr
        r = self.ctx.str('word')
        self.put(r.z, segments)
        return r
    def put(self, z, segments):
        self.words[z.get_id()] = (segments if callable(segments) else list(segments), z)
    def of(self, v):
        """The segments of a text, None if it is not known"""
        out = []
        for p in self.texts.parts(v):
            if isinstance(p, str):
                out += lit(p)
            elif p.get_id() in self.words:
                segments = self.words[p.get_id()][0]
                out += segments() if callable(segments) else segments
            else:
                return None
        return self.normal(out)
    def normal(self, segments):
        out = []
        for s in segments:
            parts = getattr(s, 'parts', None)
            out += [s] if parts is None else self.normal(parts)
        return out
    def take(self, segments, back):
        """(first or last character or None, the others)"""
        while True:
            segments = self.normal(segments)
            if not segments:
                return None, []
            s = segments[-1 if back else 0]
            if isinstance(s, Char):
                return s, (segments[:-1] if back else segments[1:])
            if not isinstance(s, Run):
                self.interp.unsupported('part of %r' % s)
            if self.ctx.choose([True, False]):
                s.parts = []
            else:
                s.parts = [Run(s.set), Char(s.set)] if back else [Char(s.set), Run(s.set)]
    def cut(self, segments, i):
        """Segments before and after the position i, counted from the end if negative"""
        got = []
        for k in range(abs(i)):
            c, rest = self.take(segments, i < 0)
            if c is None:
                break
            got.append(c)
            segments = rest
        segments = self.normal(segments)
        return (segments, got[::-1]) if i < 0 else (got, segments)
    def is_char(self, char, c):
        """Is the character c? (by cases)"""
        wanted = CharSet(c)
        char = self.normal([char])[0]
        if char.set.within(wanted):
            return True
        if char.set.apart(wanted):
            return False
        yes = self.ctx.choose([True, False])
        char.set = char.set & wanted if yes else char.set - wanted
        return yes
    def begins(self, segments, text, back=False):
        for c in (reversed(text) if back else text):
            char, segments = self.take(segments, back)
            if char is None or not self.is_char(char, c):
                return None
        return segments if segments is not None else []
    def handle(self, interp, op, a, *args):
        w = self.of(a)
        if w is None and not (op == '__eq__' and self.of(args[0]) is not None if args and not isinstance(args[0], slice) and hasattr(args[0], 'z') else False):
            return NotImplemented
        if op == '__eq__':
            b = args[0]
            if isinstance(a, str):
                a, b = b, a
                w = self.of(a)
            if not isinstance(b, str):
                return NotImplemented
            rest = self.begins(w, b)
            return rest is not None and self.take(rest, False)[0] is None
        if op in ('startswith', 'endswith') and len(args) == 1:
            options = args[0] if isinstance(args[0], tuple) else (args[0],)
            return any(self.begins(self.of(a), o, op == 'endswith') is not None for o in options)
        if op == '__getitem__':
            (k,) = args
            if isinstance(k, slice):
                if k.step not in (None, 1) or not all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
                    return NotImplemented
                if k.start is not None and k.stop is not None and not (0 <= k.start <= k.stop or k.start <= k.stop < 0 or k.stop < 0 <= k.start):
                    return NotImplemented
                if k.stop is not None and (k.start is None or k.stop < 0 or k.start >= 0):
                    w = self.cut(w, k.stop)[0]
                    if k.start:
                        if k.start < 0:
                            return NotImplemented
                        w = self.cut(w, k.start)[1]
                    return self.new(w)
                if k.start:
                    w = self.cut(w, k.start)[1]
                return self.new(w)
            if isinstance(k, int):
                before, after = self.cut(w, k)
                c = after[:1] if k < 0 else None
                if k >= 0:
                    c = [self.take(after, False)[0]] if len(before) == k else []
                elif len(after) < -k:
                    c = []
                if not c or c[0] is None:
                    interp.raise_(IndexError, 'string index out of range')
                return self.new(c[:1])
        return NotImplemented


def constant(v):
    """The Python text of a z3 string value"""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), v.as_string())
