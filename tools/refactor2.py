"""A second refactoring test: tools/refactor2.py TREE rewrites formulas in TREE/PathLib so that results are the same up to rounding:
a + b + c becomes a + (b + c), a * b * c becomes a * (b * c), a - b + c becomes a - (b - c); hypot becomes sqrt of a sum; comparisons are turned around."""
import ast
import os
import sys

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
TEXT = ("command", "path", "join", "str", "segment", "content", "points", "list", "[", "{", "'", '"', "r2", "_lut", "curves", "pass", "lut")


def plain(n):
    """Certainly a number."""
    return not any(isinstance(x, (ast.List, ast.JoinedStr, ast.Tuple, ast.Slice)) or isinstance(x, ast.Constant) and isinstance(x.value, str) or
                   isinstance(x, ast.Name) and any(t in x.id.lower() for t in TEXT) or isinstance(x, ast.Attribute) and any(t in x.attr.lower() for t in TEXT) for x in ast.walk(n))


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        l, r = n.left, n.right
        if not plain(n) or not isinstance(l, ast.BinOp):
            return n
        if isinstance(n.op, ast.Add) and isinstance(l.op, ast.Add):
            return ast.BinOp(l.left, ast.Add(), ast.BinOp(l.right, ast.Add(), r))
        if isinstance(n.op, ast.Mult) and isinstance(l.op, ast.Mult):
            return ast.BinOp(l.left, ast.Mult(), ast.BinOp(l.right, ast.Mult(), r))
        if isinstance(n.op, ast.Add) and isinstance(l.op, ast.Sub):
            return ast.BinOp(l.left, ast.Sub(), ast.BinOp(l.right, ast.Sub(), r))
        if isinstance(n.op, ast.Sub) and isinstance(l.op, ast.Sub):
            return ast.BinOp(l.left, ast.Sub(), ast.BinOp(l.right, ast.Add(), r))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "math.hypot" and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = map(ast.unparse, n.args)
            return ast.parse(f"math.sqrt(({a}) * ({a}) + ({b}) * ({b}))", mode="eval").body
        return n


tree = sys.argv[1]
for f in sorted(os.listdir(f"{tree}/PathLib")):
    if f.endswith(".py"):
        p = f"{tree}/PathLib/{f}"
        t = Rewrite().visit(ast.parse(open(p).read()))
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
