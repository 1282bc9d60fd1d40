"""Compile the modules of the code under test (and the harnesses) from their
current source with every call, subscript, membership test, identity test,
`not`, `%` and f-string routed through sx.models."""
import ast
import importlib.abc
import importlib.machinery
import sys

from . import models

PLAIN = frozenset(('super', 'locals', 'globals', 'vars', 'exec', 'eval', 'dir'))


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args, **kw):
    return ast.Call(func=_name(fn), args=list(args), keywords=kw.get('keywords', []))


class Rewriter(ast.NodeTransformer):

    def __init__(self, module):
        self.cls, self.fns = [], []
        self.where = [module]

    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.cls.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fns.append(node.name)
        body = [self.visit(s) for s in node.body]
        enter = ast.Expr(_call('__sx_enter__', ast.Constant(value='.'.join(self.where + self.cls + self.fns))))
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(at, ast.copy_location(enter, node))
        node.body = body
        self.fns.pop()
        return node

    def visit_While(self, node):
        # a loop that never ends is noticed in the loop, and not only where a function is entered
        node = self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(_call('__sx_tick__')), node))
        return node

    visit_For = visit_While

    def visit_Call(self, node):
        f = node.func
        node.args = [self.visit(a) for a in node.args]
        node.keywords = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Name) and f.id in PLAIN and not (f.id == 'exec' and len(node.args) > 1):
            return node
        if isinstance(f, ast.Attribute):
            attr = f.attr
            if attr.startswith('__') and not attr.endswith('__') and self.cls:
                attr = '_%s%s' % (self.cls[-1].lstrip('_'), attr)
            new = _call('__sx_callm__', self.visit(f.value), ast.Constant(value=attr), *node.args,
                        keywords=node.keywords)
        else:
            new = _call('__sx_call__', self.visit(f), *node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if s.__class__.__name__ == 'Index':
            s = s.value
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            s = _call('__sx_slice__', s.lower or none, s.upper or none, s.step or none)
        elif any(isinstance(x, ast.Slice) for x in ast.walk(s)):
            return node
        return ast.copy_location(_call('__sx_getitem__', node.value, s), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        fn = {ast.In: '__sx_in__', ast.NotIn: '__sx_notin__', ast.Is: '__sx_is__',
              ast.IsNot: '__sx_isnot__', ast.Lt: '__sx_lt__', ast.LtE: '__sx_le__', ast.Gt: '__sx_gt__',
              ast.GtE: '__sx_ge__', ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__'}.get(type(node.ops[0]))
        if fn is None:
            return node
        return ast.copy_location(_call(fn, node.left, node.comparators[0]), node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call('__sx_not__', node.operand), node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('__sx_mod__', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(value='')
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ''
                parts.append(ast.Tuple(
                    elts=[self.visit(v.value), ast.Constant(value=conv), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(_call('__sx_fstr__', *parts), node)


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(Rewriter(fullname).visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(models.RUNTIME)
        super(Loader, self).exec_module(module)


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, roots):
        self.roots = tuple(roots)

    def find_spec(self, name, path=None, target=None):
        if not any(name == r or name.startswith(r + '.') for r in self.roots):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(roots=('pilo', 'props', 'iso8601')):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
