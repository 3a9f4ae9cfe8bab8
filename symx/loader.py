"""Import hook that rewrites modules so every operation the executor must see
goes through :mod:`symx.hooks`.

The source is read from /repo on every run; nothing is cached.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import hooks

REPO = os.environ.get('SYMX_REPO', '/repo')
HOOK = '_sx_hooks_'

# names whose call must keep the caller's frame
_FRAME_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


class Rewriter(ast.NodeTransformer):

    def _h(self, name):
        return ast.Attribute(ast.Name(HOOK, ast.Load()), name, ast.Load())

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _FRAME_CALLS:
            return node
        return ast.copy_location(
            ast.Call(self._h('call'), [node.func] + node.args,
                     node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = 'contains' if isinstance(node.ops[0], ast.In) \
                else 'not_contains'
            return ast.copy_location(
                ast.Call(self._h(f), [node.comparators[0], node.left], []),
                node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                ast.Call(self._h('getitem'),
                         [node.value, self._slice(node.slice)], []), node)
        return node

    @staticmethod
    def _slice(s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name('slice', ast.Load()),
                            [x or ast.Constant(None)
                             for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([Rewriter._slice(x) for x in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) > 1 and any(isinstance(t, ast.Subscript)
                                         for t in node.targets):
            # a[i] = b = value: the targets are assigned from left to right
            tmp = '_sx_chain_%d_%d' % (node.lineno, node.col_offset)
            out = [ast.copy_location(ast.Assign(
                [ast.Name(tmp, ast.Store())], node.value), node)]
            for t in node.targets:
                v = ast.Name(tmp, ast.Load())
                if isinstance(t, ast.Subscript):
                    out.append(ast.copy_location(ast.Expr(ast.Call(
                        self._h('setitem'),
                        [v, t.value, self._slice(t.slice)], [])), node))
                else:
                    out.append(ast.copy_location(ast.Assign([t], v), node))
            return out
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(
                self._h('setitem'),
                [node.value, t.value, self._slice(t.slice)], [])), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if all(isinstance(t, ast.Subscript) for t in node.targets):
            return [ast.copy_location(ast.Expr(ast.Call(
                self._h('delitem'), [t.value, self._slice(t.slice)], [])),
                node) for t in node.targets]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(self._h('mod'), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant(None if v.conversion == -1
                                    else chr(v.conversion))
                if v.format_spec is None:
                    spec = ast.Constant('')
                else:
                    spec = self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return ast.copy_location(ast.Call(
            self._h('fstring'), [ast.List(parts, ast.Load())], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                k = ast.Attribute(ast.Name(HOOK, ast.Load()), '_SPREAD',
                                  ast.Load())
            pairs.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(ast.Call(
            self._h('make_dict'), [ast.List(pairs, ast.Load())], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(ast.Call(
            self._h('make_set'), [ast.List(node.elts, ast.Load())], []), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()),
                          node.generators)
        return ast.copy_location(ast.Call(self._h('make_dict'), [lc], []),
                                 node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(node.elt, node.generators)
        return ast.copy_location(ast.Call(self._h('make_set'), [lc], []),
                                 node)

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.copy_location(
            ast.Call(self._h('dict_iter'), [node.iter], []), node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = ast.Call(self._h('dict_iter'), [node.iter], [])
        return node

    def visit_ClassDef(self, node):
        # bases, keywords and decorators stay untouched
        node.body = [self.visit(x) for x in node.body]
        node.body = _flat(node.body)
        return node

    def visit_FunctionDef(self, node):
        decs = node.decorator_list
        node.decorator_list = []
        self.generic_visit(node)
        node.decorator_list = decs
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node


def _flat(xs):
    out = []
    for x in xs:
        out.extend(x if isinstance(x, list) else [x])
    return out


def rewrite(source, filename):
    tree = ast.parse(source, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


LOADED = {}


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path, patch=None):
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def path_stats(self, path):
        raise OSError       # never use or write bytecode caches

    def source_to_code(self, data, path, *, _optimization=-1):
        LOADED[path] = len(data)
        return rewrite(data.decode('utf-8'), path)

    def exec_module(self, module):
        module.__dict__[HOOK] = hooks
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments the packages listed in `roots`."""

    def __init__(self, roots):
        self.roots = roots          # package -> directory containing it

    def find_spec(self, fullname, path, target=None):
        root = fullname.split('.')[0]
        base = self.roots.get(root)
        if base is None:
            return None
        p = os.path.join(base, *fullname.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p,
                                                            '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(f),
                submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(f))
        return None


def install(extra_roots=None, libs=('tinycss2',)):
    from . import reallxml
    reallxml.substitute()
    roots = {'svgpy': REPO,
             'lxml': os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                  'models')}
    if extra_roots:
        roots.update(extra_roots)
    for lib in libs:
        spec = importlib.util.find_spec(lib)
        if spec is not None:
            roots[lib] = os.path.dirname(os.path.dirname(spec.origin))
    sys.meta_path.insert(0, Finder(roots))
