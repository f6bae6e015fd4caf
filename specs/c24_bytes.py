PROPERTY = 'C24'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('as_str, as_8_bit and as_unicode are executed symbolically for any text, any bytes and any encoding, against the contract of strict '
               'encoding and decoding (mutually inverse, or a UnicodeError): values of the wanted kind come back themselves, the round trips in both '
               'directions give the original, and an undecodable input raises instead of being altered.')
BOUNDED = ['bounded: sample texts and byte strings with every common encoding, on the real code']
TRUSTED = ['CPython codecs: strict decode(encode(s)) == s and encode(decode(b)) == b for the canonical (utf-8, latin-1, ascii) codecs']
ASSUMPTIONS = []
# --- end of meta
from common import *


def codec_contracts(interp):
    """Strict encode/decode: inverse of each other, or UnicodeError; anything else unconstrained"""
    import z3
    from pvc.values import SStr, SAny, V, Model, string
    ctx = interp.ctx
    ENC = z3.Function('ENC', z3.StringSort(), z3.StringSort(), V)
    DEC = z3.Function('DEC', V, z3.StringSort(), z3.StringSort())
    def parts(args, kwargs):
        args = list(args)
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        errors = args[1] if len(args) > 1 else kwargs.get('errors', 'strict')
        if not isinstance(enc, (str, SStr)):
            interp.unsupported('codec name')
        return string(enc), errors == 'strict'
    def encode(interp, s, args, kwargs):
        enc, strict = parts(args, kwargs)
        if not strict:
            return ctx.any('lossy', bytes)
        if not ctx.choose([True, False]):
            interp.raise_(UnicodeEncodeError, 'x', 'x', 0, 1, 'unencodable')
        b = ENC(string(s), enc)
        ctx.assume(DEC(b, enc) == string(s), check=False)
        return SAny(b, bytes)
    def decode_attr(interp, b):
        def decode(interp, args, kwargs):
            enc, strict = parts(args, kwargs)
            if not strict:
                return ctx.str('lossy')
            if not ctx.choose([True, False]):
                interp.raise_(UnicodeDecodeError, 'x', b'x', 0, 1, 'undecodable')
            s = DEC(b.z, enc)
            ctx.assume(ENC(s, enc) == b.z, check=False)
            return SStr(s)
        return Model(decode, 'bytes.decode')
    interp.class_contracts['str', 'encode'] = encode
    interp.class_contracts['attr', bytes, 'decode'] = decode_attr


def proofs(mode):
    from vrml import _bytes as B
    out = []
    def h(name, body, covers):
        def run(ctx):
            interp = make_interp(ctx)
            codec_contracts(interp)
            body(ctx, interp)
        out.append((name, run, dict(covers=covers)))
    def variants(ctx):
        return ctx.choose([[], [ctx.str('encoding')]])
    def text_stays(f):
        def body(ctx, interp):
            s = ctx.str('text')
            r = interp.call(f, [s] + variants(ctx))
            ctx.check('text is returned unchanged', r is s, repr(r))
        return body
    h('as_str of text', text_stays(B.as_str), [])
    h('as_unicode of text', text_stays(B.as_unicode), [])
    def bytes_stay(ctx, interp):
        b = ctx.any('bytes', bytes)
        r = interp.call(B.as_8_bit, [b] + variants(ctx))
        ctx.check('bytes are returned unchanged', r is b, repr(r))
    h('as_8_bit of bytes', bytes_stay, [])
    def back(ctx, interp):
        from pvc.values import SStr, SAny
        from pvc.engine import PyExc
        s = ctx.str('text')
        v = variants(ctx)
        try:
            b = interp.call(B.as_8_bit, [s] + v)
        except PyExc as err:
            ctx.cover('unencodable')
            ctx.check('only UnicodeError', issubclass(err.cls, UnicodeError), str(err))
            return
        ctx.check('bytes are produced', isinstance(b, SAny) and b.cls is bytes, repr(b))
        try:
            r = interp.call(B.as_str, [b] + v)
        except PyExc as err:
            # the contract of encode rules this out: an encoded text decodes
            ctx.check('only UnicodeError', issubclass(err.cls, UnicodeError), str(err))
            return
        ctx.cover('round trip')
        ctx.check('text -> bytes -> text is the original', isinstance(r, SStr) and ctx.interp.eq(r, s), repr(r))
    h('text to bytes and back', back, ['round trip', 'unencodable'])
    def forth(f):
        def body(ctx, interp):
            from pvc.values import SStr, SAny
            from pvc.engine import PyExc
            import z3
            b = ctx.any('bytes', bytes)
            v = variants(ctx) if f is B.as_str else []
            try:
                s = interp.call(f, [b] + v)
            except PyExc as err:
                ctx.cover('undecodable')
                ctx.check('only UnicodeError', issubclass(err.cls, UnicodeError), str(err))
                return
            ctx.check('text is produced', isinstance(s, SStr), repr(s))
            enc = v
            if f is B.as_unicode:
                # invalid text falls back to latin-1, which is lossless as well
                enc = ctx.choose([['utf-8'], ['latin-1']])
                if not ctx.branch(z3.Function('DEC', b.z.sort(), z3.StringSort(), z3.StringSort())(b.z, z3.StringVal(enc[0])) == s.z):
                    return
            try:
                r = interp.call(B.as_8_bit, [s] + enc)
            except PyExc as err:
                ctx.check('only UnicodeError', issubclass(err.cls, UnicodeError), str(err))
                return
            ctx.cover('round trip')
            if f is B.as_str:
                ctx.check('bytes -> text -> bytes is the original', interp.eq(r, b), repr(r))
        return body
    h('bytes to text and back', forth(B.as_str), ['round trip', 'undecodable'])
    def other(f, want):
        def body(ctx, interp):
            for value in (5, 2.5, None, True):
                r = interp.call(f, [value])
                ctx.check('the text of %r' % (value,), r == want(str(value)), repr(r))
        return body
    h('as_str of other values', other(B.as_str, lambda s: s), [])
    h('as_8_bit of other values', other(B.as_8_bit, lambda s: s.encode('utf-8')), [])
    return out


def cases(rnd, tier, mode):
    texts = ['', 'a', 'plain text', 'caf\u00e9', '\u4e2d\u6587', '\U0001f600', 'a\x00b', '\x7f\x80\xff', '\ufeffbom', 'e\u0301', '\ud800', 'line\r\nend\t', ' ', '\u2028', '\ufffd?']
    for i in range(600 if tier == 'quick' else 1500):
        texts.append(''.join(chr(rnd.choice([rnd.randint(0, 127), rnd.randint(0, 255), rnd.randint(0x100, 0xd7ff), rnd.randint(0xe000, 0x10ffff)])) for j in range(rnd.randint(0, 12))))
    for t in texts:
        for enc in (None, 'utf-8', 'latin-1', 'ascii', 'utf-16'):
            yield dict(kind='text', value=t, encoding=enc)
    datas = [b'', b'abc', b'\x00', b'\xff\xfe', b'caf\xc3\xa9', b'\xc3', b'\xe9', b'\x80\x81', bytes(range(256)), b'\xef\xbb\xbfx']
    for i in range(600 if tier == 'quick' else 1500):
        datas.append(bytes(rnd.randint(0, 255) for j in range(rnd.randint(0, 10))))
    for d in datas:
        for enc in (None, 'utf-8', 'latin-1', 'ascii'):
            yield dict(kind='bytes', value=list(d), encoding=enc)
    yield dict(kind='other', value=5)


def check_case(case):
    from vrml import _bytes as B
    enc = [case['encoding']] if case.get('encoding') else []
    codec = case.get('encoding') or 'utf-8'
    if case['kind'] == 'text':
        s = case['value']
        if B.as_str(s, *enc) is not s or B.as_unicode(s, *enc) is not s:
            return 'text is not returned unchanged'
        try:
            want = s.encode(codec)
        except UnicodeError:
            want = UnicodeError
        try:
            got = B.as_8_bit(s, *enc)
        except UnicodeError:
            got = UnicodeError
        if got != want:
            return 'as_8_bit gives %r' % (got,)
        if got is not UnicodeError and B.as_str(got, *enc) != s:
            return 'text is %r after the round trip' % (B.as_str(got, *enc),)
        if got is not UnicodeError and B.as_unicode(got, *enc) != s:
            return 'text is %r after the round trip' % (B.as_unicode(got, *enc),)
        return None
    if case['kind'] == 'bytes':
        b = bytes(case['value'])
        if B.as_8_bit(b, *enc) is not b:
            return 'bytes are not returned unchanged'
        try:
            want = b.decode(codec)
        except UnicodeError:
            want = UnicodeError
        try:
            got = B.as_str(b, *enc)
        except UnicodeError:
            got = UnicodeError
        if got != want:
            return 'as_str gives %r' % (got,)
        if got is not UnicodeError:
            if B.as_8_bit(got, *enc) != b:
                return 'bytes are %r after the round trip' % (B.as_8_bit(got, *enc),)
            if B.as_unicode(b, *enc) != got:
                return 'as_unicode differs from as_str'
        return None
    if B.as_str(5) != '5' or B.as_8_bit(5) != b'5':
        return 'text of a number'
