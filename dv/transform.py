"""Mechanical extraction: /repo/PyNite/*.py -> executable modules over symbolic values, redone on every run.

The text of every function is kept; the transformation only
  * turns float literals into exact rationals and routes `/` and `**` through exact versions,
  * routes `is`, `in`, `==`, `!=` through versions that understand symbolic objects,
  * wraps every `for` so that iteration over an unbounded collection obeys the loop rule,
  * routes comprehensions over collections through the same rule.
Dropped: docstrings/annotations semantics (none), printing, warnings.
"""
import ast, os, builtins, types
from . import runtime
from .sym import Unsupported

class Names(ast.NodeVisitor):
    def __init__(self):
        self.names = []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ClassDef(self, n): self.add(n.name)
    def visit_ExceptHandler(self, n): self.generic_visit(n)
    def visit_Import(self, n): 
        for a in n.names: self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

def assigned(stmts):
    v = Names()
    for s in stmts: v.visit(s)
    return v.names

def sv(name):
    return ast.Attribute(ast.Name('__sv__', ast.Load()), name, ast.Load())

def call(f, *args):
    return ast.Call(f, list(args), [])

def locals_call():
    return call(ast.Name('locals', ast.Load()))

class X(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.loops = []
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call(sv('num'), ast.Constant(repr(n.value))), n)
        return n
    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in n.values): return n
        return ast.copy_location(call(sv('fstr'), *[ast.Constant(v.value) if isinstance(v, ast.Constant) else self.visit(v.value) for v in n.values]), n)
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div): return ast.copy_location(call(sv('div'), n.left, n.right), n)
        if isinstance(n.op, ast.Pow): return ast.copy_location(call(sv('power'), n.left, n.right), n)
        if isinstance(n.op, ast.MatMult): return ast.copy_location(call(sv('np_matmul'), n.left, n.right), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: 'div', ast.Pow: 'power', ast.MatMult: 'np_matmul'}.get(type(n.op))
        if f:
            import copy
            load = copy.deepcopy(n.target)
            for x in ast.walk(load):
                if hasattr(x, 'ctx'): x.ctx = ast.Load()
            return ast.copy_location(ast.Assign([n.target], call(sv(f), load, n.value)), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = n.ops[0]
            l, r = n.left, n.comparators[0]
            if isinstance(o, ast.Is):
                if isinstance(r, ast.Constant) and r.value is None: return ast.copy_location(call(sv('isnone'), l), n)
                return ast.copy_location(call(sv('ident'), l, r), n)
            if isinstance(o, ast.IsNot):
                if isinstance(r, ast.Constant) and r.value is None: return ast.copy_location(ast.UnaryOp(ast.Not(), call(sv('isnone'), l)), n)
                return ast.copy_location(ast.UnaryOp(ast.Not(), call(sv('ident'), l, r)), n)
            if isinstance(o, ast.In): return ast.copy_location(call(sv('contains'), l, r), n)
            if isinstance(o, ast.NotIn): return ast.copy_location(ast.UnaryOp(ast.Not(), call(sv('contains'), l, r)), n)
            if isinstance(o, ast.Eq): return ast.copy_location(call(sv('eq'), l, r), n)
            if isinstance(o, ast.NotEq): return ast.copy_location(call(sv('ne'), l, r), n)
        return n
    # ---- if statements whose body only assigns numbers: one path with merged values (only in units that ask for it)
    def _simple(self, stmts):
        for s in stmts:
            if isinstance(s, ast.If):
                if not self._simple(s.body) or not self._simple(s.orelse) or not self._pure(s.test): return False
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.op, (ast.MatMult,)) or not self._pure(s.value) or not isinstance(s.target, (ast.Name, ast.Subscript, ast.Attribute)): return False
            elif isinstance(s, ast.Assign):
                if len(s.targets) != 1 or not isinstance(s.targets[0], (ast.Name, ast.Subscript, ast.Attribute)) or not self._pure(s.value): return False
            elif isinstance(s, ast.Pass): pass
            else: return False
        return True
    def _pure(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('float', 'abs')) and not (isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and not x.keywords): return False
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.NamedExpr, ast.Yield, ast.Await, ast.IfExp, ast.JoinedStr, ast.Dict, ast.List, ast.Set)): return False
        return True
    def _lam0(self, e):
        return ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), e)
    def _cond(self, e):
        """condition without branching"""
        if isinstance(e, ast.BoolOp):
            r = self._cond(e.values[-1])
            for v in reversed(e.values[:-1]):
                r = call(sv('m_and' if isinstance(e.op, ast.And) else 'm_or'), self._lam0(self._cond(v)), self._lam0(r))
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return call(sv('m_not'), self._cond(e.operand))
        return self.visit(e)
    def _emit(self, stmts, g, out):
        import copy
        for s in stmts:
            if isinstance(s, ast.Pass): continue
            if isinstance(s, ast.If):
                self.n += 1
                a, b = '__g%da__' % self.n, '__g%db__' % self.n
                t = call(sv('m_guard'), ast.Name(g, ast.Load()), self._lam0(self._cond(copy.deepcopy(s.test))))
                out.append(ast.Assign([ast.Tuple([ast.Name(a, ast.Store()), ast.Name(b, ast.Store())], ast.Store())], t))
                self._emit(s.body, a, out)
                self._emit(s.orelse, b, out)
                continue
            s = copy.deepcopy(s)
            tgt = s.target if isinstance(s, ast.AugAssign) else s.targets[0]
            load = copy.deepcopy(tgt)
            for x in ast.walk(load):
                if hasattr(x, 'ctx') and isinstance(x.ctx, ast.Store): x.ctx = ast.Load()
            new = ast.BinOp(copy.deepcopy(load), s.op, s.value) if isinstance(s, ast.AugAssign) else s.value
            v = call(sv('m_val'), ast.Name(g, ast.Load()), self._lam0(self.visit(new)), self._lam0(self.visit(load)))
            if isinstance(tgt, ast.Name):
                out.append(ast.Assign([self.visit(tgt)], v))
            else:
                # no write at all when the guard is certainly false
                out.append(ast.If(call(sv('m_some'), ast.Name(g, ast.Load())), [ast.Assign([self.visit(tgt)], v)], []))
    def visit_If(self, n):
        import copy
        if self._simple([n]):
            self.n += 1
            site = '%s:if%d' % (self.fname, self.n)
            g = '__g%d__' % self.n
            out = [ast.Assign([ast.Name(g, ast.Store())], call(sv('m_start')))]
            self._emit([copy.deepcopy(n)], g, out)
            self.generic_visit(n)
            r = ast.If(call(sv('m_on'), ast.Constant(site)), out + [ast.Expr(call(sv('m_end')))], [n])
            return ast.copy_location(r, n)
        self.generic_visit(n)
        return n
    # functions reset the loop stack
    def visit_FunctionDef(self, n):
        st, self.loops = self.loops, []
        self.generic_visit(n)
        self.loops = st
        return n
    def visit_While(self, n):
        self.n += 1
        l = '__w%d__' % self.n
        names = assigned(n.body)
        self.loops.append(('w', l))
        self.generic_visit(n)
        self.loops.pop()
        init = ast.Assign([ast.Name(l, ast.Store())], call(sv('wloop'), ast.Constant('%s:%d' % (self.fname, self.n)), ast.Tuple([ast.Constant(x) for x in names], ast.Load())))
        c = call(ast.Attribute(ast.Name(l, ast.Load()), 'head', ast.Load()), locals_call())
        head = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], c) if names else ast.Expr(c)
        head = ast.If(ast.Attribute(ast.Name(l, ast.Load()), 'sym', ast.Load()), [head], [])
        n.test = call(ast.Attribute(ast.Name(l, ast.Load()), 'c', ast.Load()), n.test)
        n.body = n.body + [self._wend(l)]
        return [ast.copy_location(s, n) for s in (init, head, n)]
    def _wend(self, l):
        return ast.If(ast.Attribute(ast.Name(l, ast.Load()), 'sym', ast.Load()),
                      [ast.Expr(call(ast.Attribute(ast.Name(l, ast.Load()), 'end', ast.Load()), locals_call()))], [])
    def visit_Continue(self, n):
        l = self.loops[-1] if self.loops else None
        if l is None: return n
        if isinstance(l, tuple): return [ast.copy_location(s, n) for s in (self._wend(l[1]), n)]
        return [ast.copy_location(s, n) for s in (self._end(l), n)]
    def visit_Break(self, n):
        l = self.loops[-1] if self.loops else None
        if l is None or isinstance(l, tuple): return n
        s = ast.If(ast.Attribute(ast.Name(l, ast.Load()), 'sym', ast.Load()),
                   [ast.Expr(call(ast.Attribute(ast.Name(l, ast.Load()), 'broken', ast.Load())))], [])
        return [ast.copy_location(s, n), n]
    def _end(self, l):
        return ast.If(ast.Attribute(ast.Name(l, ast.Load()), 'sym', ast.Load()),
                      [ast.Expr(call(ast.Attribute(ast.Name(l, ast.Load()), 'end', ast.Load()), locals_call()))], [])
    def visit_For(self, n):
        self.n += 1
        l = '__l%d__' % self.n
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        tv = Names(); tv.visit(n.target)
        targets = tv.names
        names = [x for x in assigned(n.body) if x not in targets]
        self.loops.append(l)
        body = []
        for s in n.body:
            r = self.visit(s)
            if isinstance(r, list): body.extend(r)
            elif r is not None: body.append(r)
        self.loops.pop()
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse.extend(r if isinstance(r, list) else [r])
        is_sym = ast.Attribute(ast.Name(l, ast.Load()), 'sym', ast.Load())
        allnames = names
        def assign(meth):
            c = call(ast.Attribute(ast.Name(l, ast.Load()), meth, ast.Load()), locals_call())
            if allnames:
                tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in allnames], ast.Store())
                return ast.Assign([tgt], c)
            return ast.Expr(c)
        head = ast.If(is_sym, [assign('body')], [])
        site = '%s:%d' % (self.fname, self.n)
        init = ast.Assign([ast.Name(l, ast.Store())], call(sv('loop'), n.iter, ast.Constant(site),
                          ast.Tuple([ast.Constant(x) for x in allnames], ast.Load()),
                          ast.Tuple([ast.Constant(x) for x in targets], ast.Load())))
        n.iter = ast.Name(l, ast.Load())
        n.body = [head] + body + [self._end(l)]
        n.orelse = orelse
        fin = ast.If(is_sym, [assign('final')], [])
        return [ast.copy_location(s, n) for s in (init, n, fin)]
    def _comp(self, n, kind):
        def plain(t): return isinstance(t, ast.Name) or isinstance(t, (ast.Tuple, ast.List)) and all(plain(x) for x in t.elts)
        if len(n.generators) == 1 and not n.generators[0].is_async and plain(n.generators[0].target):
            g = n.generators[0]
            it = self.visit(g.iter)
            elt = ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()) if kind == 'dict' else self.visit(n.elt)
            ifs = [self.visit(i) for i in g.ifs]
            arg, pre = self._lam(g.target)
            f = pre(elt)
            c = pre(ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)) if ifs else ast.Constant(None)
            return ast.copy_location(call(sv('comp'), ast.Constant(kind), it, f, c), n)
        self.generic_visit(n)
        return n
    def _lam(self, target):
        def args(names):
            return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        cnt = [0]
        def bind(t, e):
            if isinstance(t, ast.Name): return ast.Lambda(args([t.id]), e)
            names = []
            for x in t.elts:
                if isinstance(x, ast.Name): names.append(x.id)
                else:
                    cnt[0] += 1
                    names.append('__t%d__' % cnt[0])
                    e = call(bind(x, e), ast.Name(names[-1], ast.Load()))
            return ast.Lambda(args(['__t__']), call(ast.Lambda(args(names), e), ast.Starred(ast.Name('__t__', ast.Load()), ast.Load())))
        return None, lambda e: bind(target, e)
    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_DictComp(self, n): return self._comp(n, 'dict')
    def visit_SetComp(self, n): return self._comp(n, 'set')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')

def transform(src, fname):
    tree = ast.parse(src, fname)
    tree = X(os.path.basename(fname)).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec')

class Shadow:
    """the package under verification, loaded from the current source"""
    def __init__(self, repo='/repo', package='PyNite'):
        self.repo, self.package = repo, package
        self.mods = {}
        self.sources = {}
        b = dict(builtins.__dict__)
        b.update(runtime.BUILTINS)
        b['__import__'] = self._import
        self.builtins = b
        self.load(package)
    def path(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel)
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        return p + '.py', False
    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        p, ispkg = self.path(name)
        if not os.path.exists(p):
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__sv__'] = runtime
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        self.mods[name] = m
        src = open(p, encoding='utf-8').read()
        self.sources[name] = src
        exec(transform(src, p), m.__dict__)
        parent, _, leaf = name.rpartition('.')
        if parent:
            self.load(parent)
            setattr(self.mods[parent], leaf, m)
        return m
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__', '')
            for _ in range(level - 1): base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        if name == self.package or name.startswith(self.package + '.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try: self.load(name + '.' + f)
                        except ImportError: pass
                return m
            return self.load(name.split('.')[0])
        if name in runtime.SHIMS:
            m = runtime.SHIMS[name]
            if fromlist: return m
            return runtime.SHIMS[name.split('.')[0]]
        return builtins.__import__(name, globals, locals, fromlist, level)
    def __getattr__(self, k):
        return self.load(self.package + '.' + k)
