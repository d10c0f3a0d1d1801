"""Loads the package under verification from its source files in /repo.

The AST of every module is taken as it is and only these rewrites are applied
(mechanically, on every run):
  * `import numpy` binds the symbolic numpy (npproxy) instead
  * a float literal denotes the decimal number that is written
  * `/` and `**` are exact on integers
  * a `for` statement / list comprehension over something of symbolic length
    is handled by the loop rule of the engine (invariant, not unrolling)
  * `x in y`, and the builtins len, range, enumerate, zip, float, int, ...
    also accept symbolic values
  * a `while` statement that counts up to a limit it does not change is the
    `for` statement over that range
  * function annotations and docstrings are dropped
Everything else runs as written.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
from . import rt

SKIP = set()


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infor = 0

    def _name(self, s):
        return ast.Name(id=s, ctx=ast.Load())

    def _vc(self, attr, *args):
        return ast.Call(func=ast.Attribute(value=self._name('__vc__'), attr=attr, ctx=ast.Load()),
                        args=list(args), keywords=[])

    # imports ------------------------------------------------------------
    def visit_Import(self, node):
        out = []
        rest = []
        for al in node.names:
            if al.name in ('numpy', 'math', 'cmath'):
                t = ast.Name(id=al.asname or al.name, ctx=ast.Store())
                out.append(ast.Assign(targets=[t], value=ast.Attribute(value=self._name('__vc__'), attr='mod_' + al.name, ctx=ast.Load())))
            else:
                rest.append(al)
        if rest:
            out.append(ast.Import(names=rest))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and node.module.split('.')[0] in ('numpy', 'math'):
            out = []
            base = ast.Attribute(value=self._name('__vc__'), attr='mod_' + node.module.split('.')[0], ctx=ast.Load())
            for p in node.module.split('.')[1:]:
                base = ast.Attribute(value=base, attr=p, ctx=ast.Load())
            for al in node.names:
                out.append(ast.Assign(targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())],
                                      value=ast.Attribute(value=base, attr=al.name, ctx=ast.Load())))
            return out
        if node.level == 0 and node.module == 'scipy.special':
            return [ast.Assign(targets=[ast.Name(id=al.asname or al.name, ctx=ast.Store())],
                               value=self._vc('special', ast.Constant(al.name))) for al in node.names]
        return node

    # literals and operators -------------------------------------------------
    def visit_Constant(self, node):
        if type(node.value) is float:
            return ast.copy_location(self._vc('lit', ast.Constant(self.src(node) or repr(node.value))), node)
        if type(node.value) is complex:
            return ast.copy_location(self._vc('clit', ast.Constant(repr(node.value.imag))), node)
        return node

    source = None
    local_names = frozenset()

    def src(self, node):
        s = ast.get_source_segment(self.source, node) if False else None
        return s

    def visit_JoinedStr(self, node):
        # leave format specifications alone
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(self._vc('div', node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(self._vc('pow', node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Pow)) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[ast.Name(id=node.target.id, ctx=ast.Store())],
                value=self._vc('idiv' if isinstance(node.op, ast.Div) else 'ipow',
                               ast.Name(id=node.target.id, ctx=ast.Load()), node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._vc('contains', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    # functions ------------------------------------------------------------
    def visit_FunctionDef(self, node):
        node.returns = None
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        save, self.infor = self.infor, 0
        keep, self.local_names = self.local_names, _stores(node.body)
        self.generic_visit(node)
        self.infor, self.local_names = save, keep
        return node

    def visit_Lambda(self, node):
        save, self.infor = self.infor, 0
        self.generic_visit(node)
        self.infor = save
        return node

    # loops ----------------------------------------------------------------
    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        first = g.iter
        inner = ast.comprehension(target=g.target, iter=ast.List(elts=[self._name('__x__')], ctx=ast.Load()),
                                  ifs=g.ifs, is_async=0)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__x__')], kwonlyargs=[],
                                            kw_defaults=[], defaults=[]),
                         body=ast.ListComp(elt=node.elt, generators=[inner]))
        return ast.copy_location(self._vc(kind, first, lam), node)

    def visit_ListComp(self, node):
        if _uses_walrus(node):
            return self.generic_visit(node)
        return self._comp(node, 'listcomp')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'genexp')

    def visit_For(self, node):
        if not isinstance(node, ast.For):
            return self.generic_visit(node)
        self.n += 1
        n = self.n
        names = sorted(_stores([node.target] + node.body) | (_appends(node.body) & self.local_names))
        import copy
        body_sym = copy.deepcopy(node.body)
        target_sym = copy.deepcopy(node.target)
        node.iter = self.visit(node.iter)
        node.body = [y for x in node.body for y in _aslist(self.visit(x))]
        node.orelse = [y for x in node.orelse for y in _aslist(self.visit(x))]
        # symbolic version
        tr = Brk()
        body_sym = [y for x in body_sym for y in _aslist(tr.visit(x))]
        sub = Tr()
        sub.local_names = self.local_names
        sub.n = self.n + 1000 * (n + 1)
        body_sym = [y for x in body_sym for y in _aslist(sub.visit(x))]
        it, lp = '__it%d__' % n, '__lp%d__' % n
        st = lambda: ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Store()) for v in names], ctx=ast.Store())

        def lpc(attr, *args):
            return ast.Call(func=ast.Attribute(value=self._name(lp), attr=attr, ctx=ast.Load()), args=list(args), keywords=[])
        loc = lambda: ast.Call(func=self._name('__vc_locals__'), args=[], keywords=[])
        symbody = [ast.Assign(targets=[st()], value=lpc('state'))] if names else [ast.Expr(lpc('state'))]
        symbody.append(ast.Assign(targets=[target_sym], value=lpc('element')))
        symbody.append(ast.For(target=ast.Name(id='__once__', ctx=ast.Store()),
                               iter=lpc('once'), body=body_sym, orelse=[]))
        symbody.append(ast.Expr(lpc('record', loc())))
        sym = [ast.Assign(targets=[ast.Name(id=lp, ctx=ast.Store())],
                          value=self._vc('loop', self._name(it),
                                         ast.Tuple(elts=[ast.Constant(v) for v in names], ctx=ast.Load()), loc(),
                                         ast.Constant(node.lineno))),
               ast.While(test=lpc('again'), body=symbody, orelse=[])]
        sym.append(ast.Assign(targets=[st()], value=lpc('final')) if names else ast.Expr(lpc('final')))
        sym += copy.deepcopy(node.orelse)
        plain = ast.For(target=node.target, iter=self._name(it), body=node.body, orelse=node.orelse)
        new = [ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=self._vc('iter', node.iter)),
               ast.If(test=self._vc('symloop', self._name(it)), body=sym, orelse=[plain])]
        for x in new:
            ast.copy_location(x, node)
        return new


    def visit_While(self, node):
        c = _counted(node)
        if c is None:
            return self.generic_visit(node)
        v, first, stop, step = c
        self.n += 1
        w, h = '__w%d__' % self.n, '__h%d__' % self.n
        load, store = (lambda q: ast.Name(id=q, ctx=ast.Load())), (lambda q: ast.Name(id=q, ctx=ast.Store()))
        new = [ast.Assign(targets=[store(w)], value=load(v)), ast.Assign(targets=[store(h)], value=stop),
               ast.For(target=store(v), iter=ast.Call(func=load('__vc_crange__'), args=[load(w), load(h), ast.Constant(step)], keywords=[]), body=first or [ast.Pass()], orelse=[]),
               ast.Assign(targets=[store(v)], value=ast.Call(func=load('__vc_counted__'), args=[load(w), load(h), ast.Constant(step)], keywords=[]))]
        for x in new:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return [y for x in new for y in _aslist(self.visit(x))]


def _counted(node):
    """a while statement that counts: name, body, limit and step of the range it runs over"""
    t = node.test
    if node.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(node.body) < 1:
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(r, ast.Name) and not isinstance(l, ast.Name):
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if type(op) not in flip:
            return None
        l, op, r = r, flip[type(op)](), l
    if not isinstance(l, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    v, last = l.id, node.body[-1]
    if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v:
        step = last.value
    elif (isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v
          and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == v):
        step = last.value.right
    else:
        return None
    if not isinstance(step, ast.Constant) or type(step.value) is not int or step.value < 1:
        return None
    body = node.body[:-1]
    if v in _stores(body) or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield)) for y in body for x in ast.walk(y)):
        return None
    # the limit is the same throughout
    names = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
    if v in names or any(not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Load, ast.Call)) for x in ast.walk(r)):
        return None
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') for x in ast.walk(r)):
        return None
    if names & (_stores(body) | _appends(body)):
        return None
    if isinstance(op, ast.LtE):
        r = ast.BinOp(left=r, op=ast.Add(), right=ast.Constant(1))
    return v, body, r, step.value


class Brk(ast.NodeTransformer):
    """break/return of a loop handled by the loop rule"""

    def visit_Break(self, node):
        return ast.copy_location(ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()),
                                 attr='brk', ctx=ast.Load()), args=[], keywords=[])), node)

    def visit_Return(self, node):
        return self.visit_Break(node)

    def visit_For(self, node):
        # inner loops keep their own breaks; returns leave the outer loop too
        node.body = [RetOnly().visit(x) for x in node.body]
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node
    visit_Lambda = visit_FunctionDef


class RetOnly(Brk):
    def visit_Break(self, node):
        return node

    def visit_Return(self, node):
        return Brk.visit_Break(self, node)


def _aslist(x):
    if x is None:
        return []
    return x if isinstance(x, list) else [x]


def _uses_walrus(node):
    return any(isinstance(x, ast.NamedExpr) for x in ast.walk(node))


def _stores(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
    v = V()
    for n in nodes:
        v.visit(n)
    return out


def _appends(nodes):
    """names whose method append is called"""
    return {x.func.value.id for n in nodes for x in ast.walk(n)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend')
            and isinstance(x.func.value, ast.Name)}


def transform(source, filename):
    tree = ast.parse(source, filename)
    t = Tr()
    t.source = source
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        code = transform(src, self.path)
        d = module.__dict__
        d['__vc__'] = rt
        d['__vc_locals__'] = rt.get_locals
        d['__vc_counted__'] = rt.counted
        d['__vc_crange__'] = rt.crange
        d.update(rt.BUILTINS)
        exec(code, d)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, packages):
        self.root, self.packages = root, packages

    def find_spec(self, name, path, target=None):
        if name.split('.')[0] not in self.packages:
            return None
        base = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(base) and not os.path.exists(os.path.join(base, '__init__.py')):
            # a folder of programs
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install(root='/repo', packages=('pyTMD', 'scripts')):
    sys.meta_path.insert(0, Finder(root, packages))
