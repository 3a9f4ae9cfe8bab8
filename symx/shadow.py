"""Instrumented copies of pure-Python standard library modules.

When a function of one of these modules is called with symbolic arguments the
same function of a copy of the module, rewritten like the code under test, is
executed instead.
"""
import ast
import importlib
import sys
import types

MODULES = ('urllib.parse', 'posixpath', 'genericpath', 'colorsys', 'shlex',
           'textwrap', 'string', 'html', 'base64', 'difflib', 'bisect',
           '_collections_abc')
_REPLACE = {
    # the C helpers have Python twins in the same file
    'posixpath': [('from posix import _path_normpath', 'raise ImportError')],
}
_CACHE = {}


def get(name):
    """The instrumented copy of module `name`, or None."""
    if name not in MODULES:
        return None
    m = _CACHE.get(name)
    if m is None:
        from . import hooks, loader
        real = importlib.import_module(name)
        with open(real.__file__, encoding='utf-8') as f:
            src = f.read()
        for a, b in _REPLACE.get(name, ()):
            src = src.replace(a, b)
        tree = ast.parse(src, real.__file__)
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef):
                node.decorator_list = [
                    d for d in node.decorator_list
                    if 'lru_cache' not in ast.dump(d)]
        src = ast.unparse(tree)
        m = types.ModuleType(name)
        m.__dict__.update({loader.HOOK: hooks, '__file__': real.__file__,
                           '__package__': real.__package__,
                           '__name__': name})
        from . import core
        cur, core.CURRENT = core.CURRENT, None
        try:
            exec(loader.rewrite(src, '<shadow %s>' % name), m.__dict__)
        finally:
            core.CURRENT = cur
        for k, v in list(vars(real).items()):
            if isinstance(v, types.FunctionType) and v in hooks.OVERRIDES:
                m.__dict__[k] = hooks.OVERRIDES[v]
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and \
                    v.__code__.co_filename.startswith('<shadow'):
                v.__dict__['_sx_shadow_'] = True
            elif isinstance(v, type) and v.__module__ == name:
                v._sx_shadow_ = True
        _CACHE[name] = m
    return m


def lookup(f):
    """The instrumented twin of function f, or None."""
    mod = getattr(f, '__module__', None)
    if mod not in MODULES:
        return None
    qn = getattr(f, '__qualname__', '')
    if '.' in qn or '<' in qn:
        return None
    return getattr(get(mod), qn, None)


def method(f):
    """The instrumented twin of a method of the collections.abc classes."""
    o = get('_collections_abc')
    for n in getattr(f, '__qualname__', '').split('.'):
        o = getattr(o, n, None)
    return o
