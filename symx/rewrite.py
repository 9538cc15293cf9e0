"""AST rewrite that keeps Python semantics but routes the operations C code would do on symbolic operands through rt."""
import ast
from .rt import STR_METHODS

class Rewriter(ast.NodeTransformer):
    def __init__(self, modname): self.mod = modname; self.qual = []
    def _rt(self, fn, args, node):
        return ast.copy_location(ast.Call(func=ast.Name('__rt_%s__' % fn, ast.Load()), args=args, keywords=[]), node)
    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            star = ast.Name('__rt_STAR__', ast.Load())
            items = [ast.Tuple([k if k is not None else star, v], ast.Load()) for k, v in zip(n.keys, n.values)]
            return self._rt('mkdict_merge', [ast.List(items, ast.Load())], n)
        return self._rt('mkdict', [ast.List([ast.Tuple([k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())], n)
    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self._rt('mkdict', [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], n)
    def visit_Set(self, n):
        self.generic_visit(n)
        return self._rt('mkset', [ast.List(n.elts, ast.Load())], n)
    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._rt('mkset', [ast.ListComp(n.elt, n.generators)], n)
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self._rt('contains', [n.left, n.comparators[0]], n)
            return c if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), c), n)
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return self._rt('mod', [n.left, n.right], n)
        if isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and not isinstance(n.left, ast.Constant) \
           and not isinstance(n.right, ast.Constant):
            return self._rt('setop', [ast.Constant(type(n.op).__name__), n.left, n.right], n)
        return n
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                parts.append(self._rt('fmt', [self.visit(v.value), spec, conv], n))
        if not parts: return ast.copy_location(ast.Constant(''), n)
        return self._rt('fstr', parts, n)
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (isinstance(f.value, ast.Call) and
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super'):
            n.args = [f.value, ast.Constant(f.attr)] + n.args
            n.func = ast.copy_location(ast.Name('__rt_callm__', ast.Load()), f)
        elif isinstance(f, ast.Name) and f.id in ('dict', 'defaultdict', 'OrderedDict') and any(k.arg is None for k in n.keywords) \
           and not any(isinstance(a, ast.Starred) for a in n.args):      # dict(x, **y): y may have symbolic keys
            star = ast.Name('__rt_STAR__', ast.Load())
            items = [ast.Tuple([ast.Constant(k.arg) if k.arg is not None else star, k.value], ast.Load()) for k in n.keywords]
            m = self._rt('mkdict_merge', [ast.List(items, ast.Load())], n)
            return self._rt('dictkw', [f, ast.Tuple(n.args, ast.Load()), m], n)
        return n
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and not isinstance(n.slice, ast.Constant) \
           and not isinstance(n.slice, ast.Tuple):
            return self._rt('getitem', [n.value, n.slice], n)
        return n
    # annotations are left alone
    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        if n.simple and not self.qual: n.annotation = ast.Constant(0)
        elif not (self.qual and self.qual[-1][0] == 'class'): n.annotation = ast.Constant(0)
        return n
    def visit_arg(self, n): n.annotation = None; return n
    def _func(self, n):
        self.qual.append(('def', n.name))
        name = '.'.join(q for _, q in self.qual)
        n.returns = None
        n.args = self.visit(n.args)
        decs = n.decorator_list
        n.body = [self.visit(s) for s in n.body]
        n.body = [x for s in n.body for x in (s if isinstance(s, list) else [s])]
        enter = ast.copy_location(ast.Expr(self._rt('enter', [ast.Constant('%s:%s' % (self.mod, name))], n)), n)
        n.body.insert(0, enter)
        n.decorator_list = [self.visit(d) for d in decs]
        self.qual.pop()
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _func
    def visit_ClassDef(self, n):
        self.qual.append(('class', n.name))
        typed = any(isinstance(b, ast.Name) and b.id == 'TypedDict' for b in n.bases)
        self.generic_visit(n)
        self.qual.pop()
        return n
    def _loop(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(self._rt('loop', [], n)), n))
        return n
    visit_While = visit_For = _loop

def compile_source(src, filename, modname):
    tree = ast.parse(src, filename)
    # __future__ imports and docstrings stay first because nothing is inserted at module level
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
