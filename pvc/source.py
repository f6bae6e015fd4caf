"""Mechanical extraction of the functions under contract from /repo.

Python modules are imported from /repo's working tree as they are: names,
classes, descriptors and method resolution are those of the running code, and
the text interpreted is the text of the file the module came from.

Cython modules (accelerate/src/*.pyx) are translated line by line to Python
and imported as vrml_accelerate.<name>.  What the translation drops is listed
in DROPPED and reported in the evidence.
"""
import ast, hashlib, importlib, importlib.util, os, re, sys, types

REPO = os.environ.get('PVC_REPO', '/repo')

DROPPED = [
    'cdef/ctypedef declarations of C types (machine floats become reals, C ints become mathematical integers)',
    'C types of parameters, except that a numpy-typed parameter stays an array',
    'cimport lines, and "cdef class"/"cdef" method qualifiers (static C dispatch becomes attribute dispatch)',
    'Cython\'s optional third argument of __get__ becomes a default of None',
]

_trees = {}        # filename -> ast.Module
_sources = {}      # filename -> text
_funcs = {}        # filename -> {(name, lineno): node}


def pyx_to_py(text):
    """Translate the subset of Cython used by /repo/accelerate/src"""
    out = []
    for line in text.split('\n'):
        stripped = line.strip()
        indent = line[:len(line) - len(line.lstrip())]
        if re.match(r'(cimport|from\s+\S+\s+cimport)\b', stripped) or stripped.startswith('ctypedef'):
            out.append(indent + 'pass')
            continue
        m = re.match(r'cdef\s+class\s+(.*)$', stripped)
        if m:
            out.append(indent + 'class ' + m.group(1))
            continue
        # cdef [type] name(args):
        m = re.match(r'c(?:p)?def\s+(?:inline\s+)?(?:[\w.]+\s+)?(\w+)\s*\((.*)\)\s*(?:except\s+\S+\s*)?:\s*$', stripped)
        if m:
            out.append(indent + 'def %s(%s):' % (m.group(1), _params(m.group(2))))
            continue
        # cdef declarations with or without initialisers
        m = re.match(r'cdef\s+(?:public\s+|readonly\s+)?(.*)$', stripped)
        if m:
            rest = m.group(1)
            if '=' in rest:
                mm = re.match(r'(?:[\w.]+(?:\[[^\]]*\])?\s+)+?(\w+)\s*=\s*(.*)$', rest)
                if not mm:
                    raise SyntaxError('cannot translate: %s' % stripped)
                out.append(indent + '%s = %s' % (mm.group(1), mm.group(2)))
            else:
                out.append(indent + 'pass')
            continue
        m = re.match(r'def\s+(\w+)\s*\((.*)\)\s*:\s*$', stripped)
        if m:
            params = _params(m.group(2))
            if m.group(1) == '__get__' and re.match(r'\s*self\s*,\s*\w+\s*,\s*\w+\s*$', params):
                params = params.rstrip() + '=None'
            out.append(indent + 'def %s(%s):' % (m.group(1), params))
            continue
        out.append(line)
    return '\n'.join(out)


def _split_args(text):
    args, depth, current = [], 0, ''
    for ch in text:
        if ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        if ch == ',' and not depth:
            args.append(current)
            current = ''
        else:
            current += ch
    if current.strip():
        args.append(current)
    return args


def _params(text):
    result = []
    for arg in _split_args(text):
        arg = re.sub(r'^(\s*[\w.]+)\[[^\]]*\]', r'\1', arg)
        name, eq, default = arg.partition('=')
        name = name.strip()
        star = ''
        while name.startswith('*'):
            star += '*'
            name = name[1:]
        name = star + name.split()[-1]
        result.append(name + (('=' + default.strip()) if eq else ''))
    return ', '.join(result)


def install_accel():
    """Make the translated Cython modules importable as vrml_accelerate.*"""
    package = types.ModuleType('vrml_accelerate')
    package.__path__ = []
    sys.modules['vrml_accelerate'] = package
    src = os.path.join(REPO, 'accelerate', 'src')
    for name in ('fieldaccel2', 'frustcullaccel', 'tmatrixaccel'):
        filename = os.path.join(src, name + '.pyx')
        with open(filename) as f:
            text = pyx_to_py(f.read())
        register(filename, text)
        module = types.ModuleType('vrml_accelerate.' + name)
        module.__file__ = filename
        sys.modules['vrml_accelerate.' + name] = module
        setattr(package, name, module)
        exec(compile(text, filename, 'exec'), module.__dict__)


def setup(accel=False):
    """Prepare imports of vrml from REPO; must be called before importing vrml"""
    assert 'vrml' not in sys.modules
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if accel:
        install_accel()
    else:
        sys.modules['vrml_accelerate'] = None     # import raises ImportError
    import vrml
    assert os.path.dirname(os.path.abspath(vrml.__file__)) == os.path.join(REPO, 'vrml'), vrml.__file__


def register(filename, text):
    _sources[filename] = text
    tree = ast.parse(text, filename)
    _trees[filename] = tree
    index = {}
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            line = node.lineno
            name = getattr(node, 'name', '<lambda>')
            index.setdefault((name, line), node)
            for d in getattr(node, 'decorator_list', ()):
                index.setdefault((name, d.lineno), node)
    _funcs[filename] = index


def load(filename):
    if filename not in _trees:
        with open(filename) as f:
            register(filename, f.read())
    return _funcs[filename]


def in_repo(filename):
    return bool(filename) and os.path.abspath(filename).startswith(REPO + os.sep)


def function_ast(func):
    """AST of a live function object that came from /repo (or registered text)"""
    code = func.__code__
    index = load(code.co_filename)
    node = index.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise KeyError('no source for %r' % (func,))
    return node


def describe(func):
    code = func.__code__
    filename = os.path.relpath(code.co_filename, REPO) if in_repo(code.co_filename) else code.co_filename
    return '%s:%s' % (filename, func.__qualname__)


def tree_hash():
    h = hashlib.sha256()
    for base in ('vrml', 'accelerate/src'):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, base))):
            for name in sorted(files):
                if name.endswith(('.py', '.pyx')):
                    path = os.path.join(root, name)
                    h.update(path.encode())
                    with open(path, 'rb') as f:
                        h.update(f.read())
    return h.hexdigest()
