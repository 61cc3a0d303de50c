"""Rewrites Python source so that arithmetic on symbolic values keeps Python/numpy semantics exactly."""
import ast


class T(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('_R', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue): v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: '_div', ast.Pow: '_pow'}.get(type(n.op))
        if f: return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('_pctfmt', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        f = {ast.Div: '_idiv', ast.Pow: '_ipow'}.get(type(n.op))
        if not f: return n
        load = ast.parse(ast.unparse(n.target), mode='eval').body
        return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()), [self.visit(load), n.value], [])), n)

    def visit_Assert(self, n):
        self.generic_visit(n); return n


class Enter(ast.NodeTransformer):
    """insert _enter(qualname) into every function of a .py module"""
    def __init__(self): self.stack = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name); self.generic_visit(n); self.stack.pop(); return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        q = '.'.join(self.stack)
        self.generic_visit(n); self.stack.pop()
        c = ast.Expr(ast.Call(ast.Name('_enter', ast.Load()), [ast.Constant(q)], []))
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(i, c)
        return n


def compile_py(text, filename, enter=True):
    tree = ast.parse(text)
    if enter: tree = Enter().visit(tree)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
