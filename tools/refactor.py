#!/usr/bin/env python3
"""Makes a behaviour-preserving variant of a copy of jschon:  refactor.py DIR STYLE...
(used to try that the checks judge what the code does, not how it is written)"""
import ast
import glob
import os
import sys


class Base(ast.NodeTransformer):
    n = 0

    def tmp(self, p='_t'):
        Base.n += 1
        return '%s%d' % (p, Base.n)


class Returns(Base):
    """return e -> t = e; return t"""

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, (ast.Constant, ast.Name)):
            return node
        t = self.tmp()
        return [ast.Assign([ast.Name(t, ast.Store())], node.value), ast.Return(ast.Name(t, ast.Load()))]


class Invert(Base):
    """if c: A else: B -> if not c: B else: A"""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Pass()], node.body)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class Loops(Base):
    """for x in e: B -> it = iter(e); while True: try: x = next(it) except StopIteration: break; B"""

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        t = self.tmp('_it')
        return [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [node.iter], [])),
                ast.While(ast.Constant(True), [
                    ast.Try([ast.Assign([node.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(t, ast.Load())], []))],
                            [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])] + node.body, [])]


class Appends(Base):
    """x += [y] -> x.append(y)"""

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Add) and isinstance(node.value, ast.List) and len(node.value.elts) == 1 and isinstance(node.target, ast.Name):
            return ast.Expr(ast.Call(ast.Attribute(ast.Name(node.target.id, ast.Load()), 'append', ast.Load()), node.value.elts, []))
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Add, ast.Sub)):
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value))
        return node


class Bools(Base):
    """not (a or b) and such; chained comparisons split"""

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if any(isinstance(x, ast.NamedExpr) for v in node.values for x in ast.walk(v)):
            return node
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.In()], node.comparators))
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(node.left, [ast.Is()], node.comparators))
        return node


class FStrings(Base):
    """f'..{x}..' -> '..{}..'.format(x)"""

    def visit_JoinedStr(self, node):
        fmt, args = '', []
        for v in node.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None:
                    return node
                fmt += '{!%s}' % chr(v.conversion) if v.conversion != -1 else '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])


class Comps(Base):
    """assignments of list and dict comprehensions -> loops"""

    def visit_Assign(self, node):
        self.generic_visit(node)
        v = node.value
        if len(node.targets) != 1 or not isinstance(v, (ast.ListComp, ast.DictComp)) or not self.infn:
            return node
        if any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for x in ast.walk(v)):
            return node
        t = self.tmp('_c')
        names = {x.id for g in v.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        ren = {n: self.tmp('_v') for n in names}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.copy_location(ast.Name(ren.get(n.id, n.id), n.ctx), n)
        first = v.generators[0].iter
        if len(v.generators) > 1:
            return node
        v = R().visit(v)
        g = v.generators[0]
        g.iter = first
        if isinstance(v, ast.ListComp):
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [v.elt], []))
            init = ast.List([], ast.Load())
        else:
            leaf = ast.Assign([ast.Subscript(ast.Name(t, ast.Load()), v.key, ast.Store())], v.value)
            init = ast.Dict([], [])
        body = [leaf]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        return [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, []), ast.Assign(node.targets, ast.Name(t, ast.Load()))]

    infn = 0

    def visit_FunctionDef(self, node):
        self.infn += 1
        self.generic_visit(node)
        self.infn -= 1
        return node


class Helpers(Base):
    """bodies of plain methods move into helper methods"""

    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs and not s.args.posonlyargs \
                    and s.args.args and s.args.args[0].arg == 'self' and s.name not in ('__init__', '__new__') and not s.args.defaults \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(s)):
                h = '_impl' + str(len(s.name)) + s.name.strip('_')
                doc = [s.body[0]] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                impl = ast.FunctionDef(h, s.args, s.body[len(doc):] or [ast.Pass()], [], None)
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), h, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in s.args.args[1:]], [])
                # called through the class that defines it, since subclasses have helpers of the same name
                call = ast.Call(ast.Attribute(ast.Name(node.name, ast.Load()), h, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in s.args.args], [])
                s = ast.FunctionDef(s.name, s.args, doc + [ast.Return(call)], [], s.returns)
                out.append(impl)
            out.append(s)
        node.body = out
        return node


class Noise(Base):
    """statements that do nothing"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        i = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, ast.Assign([ast.Name('_unused', ast.Store())], ast.List([], ast.Load())))
        node.body.insert(i + 1, ast.Expr(ast.Call(ast.Attribute(ast.Name('_unused', ast.Load()), 'append', ast.Load()), [ast.Constant(1)], [])))
        return node


class Guards(Base):
    """walrus conditions -> assignment before (only for `if (x := e):` and `if (x := e) is not None:`)"""

    def visit_If(self, node):
        self.generic_visit(node)
        t = node.test
        if isinstance(t, ast.NamedExpr):
            return [ast.Assign([ast.Name(t.target.id, ast.Store())], t.value), ast.If(ast.Name(t.target.id, ast.Load()), node.body, node.orelse)]
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.NamedExpr):
            w = t.left
            t.left = ast.Name(w.target.id, ast.Load())
            return [ast.Assign([ast.Name(w.target.id, ast.Store())], w.value), node]
        return node


class Elif(Base):
    """early returns: if c: ...return; else B -> if c: ...return; B"""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and isinstance(node.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            rest = node.orelse
            node.orelse = []
            return [node] + rest
        return node


STYLES = {c.__name__.lower(): c for c in (Returns, Invert, Loops, Appends, Bools, FStrings, Comps, Helpers, Noise, Guards, Elif)}

if __name__ == '__main__':
    d = sys.argv[1]
    for f in glob.glob(os.path.join(d, 'jschon', '**', '*.py'), recursive=True):
        src = open(f, encoding='utf-8').read()
        tree = ast.parse(src)
        for s in sys.argv[2:]:
            tree = ast.fix_missing_locations(STYLES[s]().visit(tree))
        out = ast.unparse(tree)
        compile(out, f, 'exec')
        open(f, 'w', encoding='utf-8').write(out + '\n')
