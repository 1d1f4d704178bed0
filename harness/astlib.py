"""Renders the expressions of programs (see Eval in specs/Semantics.tla) as Python source text."""
from __future__ import annotations

import ast
import keyword

from vals import py, untext

BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "**": ast.Pow, "%": ast.Mod, "//": ast.FloorDiv,
       "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}
CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}


def _name(n):
    return ast.Name(n, ast.Load())


def _chain(names):
    node = _name(names[0])
    for n in names[1:]:
        node = ast.Attribute(node, n, ast.Load())
    return node


def _number(v):
    x = py(v)
    assert x >= 0
    return ast.Constant(x)


def node(e):
    t = e[0]
    if t == "num":
        if e[2] == "s":
            return ast.Constant(untext(e[1]))
        if e[2] == "b":
            return ast.Constant(bool(e[1][1]))
        x = py(e[1])
        assert x >= 0, e
        return ast.Constant(float(x) if e[2] == "f" else int(x))
    if t == "nan":
        return _name(e[1]) if e[1] != "None" else ast.Constant(None)
    if t == "neginf":
        return _name("NEG_INF")
    if t in ("sym", "col"):
        return _name(e[1])
    if t == "attr":
        return _chain(e[1])
    if t == "agg":
        # An expression may come with its own text (used for forms which only differ in how they are written)
        args = [] if len(e) > 4 and e[4] == "noargs" else [node(e[3])]
        return ast.Call(ast.Attribute(_chain(e[1]), e[2], ast.Load()), args, [])
    if t == "un":
        return ast.UnaryOp(ast.Not() if e[1] == "not" else ast.USub(), node(e[2]))
    if t == "bin":
        return ast.BinOp(node(e[2]), BIN[e[1]](), node(e[3]))
    if t == "cmp":
        vs = [node(x) for x in e[2]]
        return ast.Compare(vs[0], [CMP[o]() for o in e[1]], vs[1:])
    if t == "bool":
        return ast.BoolOp(ast.And() if e[1] == "and" else ast.Or(), [node(x) for x in e[2]])
    if t == "call":
        return ast.Call(_name(e[1]), [node(x) for x in e[2]], [])
    if t == "dict":
        keys, values = [], []
        for path, v, *quoted in e[1]:
            names = [untext(p) for p in path]
            # Names which are no identifiers, and any other by choice, are written as texts
            plain = all(n.isidentifier() and not keyword.iskeyword(n) for n in names) and not quoted
            keys.append(_chain(names) if plain else ast.Constant(*names))
            x = py(v)
            values.append(ast.UnaryOp(ast.USub(), ast.Constant(-x)) if x < 0 else ast.Constant(x))
        return ast.Dict(keys, values)
    if t == "bad":
        what, k = e[1], [node(x) for x in e[2]]
        if what == "ifexp":
            return ast.IfExp(k[0], k[1], k[2])
        if what == "subscript":
            return ast.Subscript(k[0], k[1], ast.Load())
        if what == "listcomp":
            return ast.ListComp(k[0], [ast.comprehension(ast.Name("q", ast.Store()), k[1], [], 0)])
        if what == "dictcomp":
            return ast.DictComp(_name("q"), k[0], [ast.comprehension(ast.Name("q", ast.Store()), k[1], [], 0)])
        if what == "starred":
            return ast.Call(_name("abs"), [ast.Starred(k[0], ast.Load())], [])
        if what == "badfunc":
            return ast.Call(_name("frobnicate"), k, [])
        if what == "badagg":
            return ast.Call(ast.Attribute(_chain(["zz", "ll"]), "frob", ast.Load()), k, [])
        if what == "kwagg":
            return ast.Call(ast.Attribute(_chain(["zz", "ll"]), "sum", ast.Load()), k,
                            [ast.keyword("int_fill", ast.Constant(3))])
        if what == "baddictval":
            return ast.Dict([_name("A")], [ast.BinOp(_name("u1"), ast.Add(), k[0])])
        if what == "baddicttext":
            return ast.Dict([_name("A")], [ast.Constant("x")])
        if what == "baddictneg":
            return ast.Dict([_name("A")], [ast.UnaryOp(ast.USub(), ast.BinOp(_name("u1"), ast.Add(), k[0]))])
        if what in ("baddictinv", "baddictnot"):
            op = ast.Invert() if what == "baddictinv" else ast.Not()
            return ast.Dict([_name("A"), _name("B")], [ast.Constant(1), ast.UnaryOp(op, ast.Constant(2))])
        if what == "baddictname":
            return ast.Dict([_name("A"), _name("B")], [ast.Constant(1), ast.BinOp(_name("u3"), ast.Add(), k[0])])
        if what == "baddictdict":
            return ast.Dict([_name("A")], [ast.Dict([_name("B")], [ast.Constant(2)])])
        if what == "baddictlater":
            return ast.Dict([_name("A"), _name("B")], [ast.Constant(1), ast.Constant("x")])
        if what == "baddictspread":
            return ast.Dict([_name("A"), None], [ast.Constant(1), k[0]])
        if what == "setcomp":
            return ast.SetComp(k[0], [ast.comprehension(ast.Name("q", ast.Store()), k[1], [], 0)])
        if what == "generator":
            return ast.GeneratorExp(k[0], [ast.comprehension(ast.Name("q", ast.Store()), k[1], [], 0)])
        if what == "list":
            return ast.List(k, ast.Load())
        if what == "tuple":
            return ast.Tuple(k, ast.Load())
        if what == "stragg":
            return ast.Call(ast.Attribute(_chain(["zz", "ll"]), "sum", ast.Load()), [ast.Starred(k[0], ast.Load())], [])
        if what == "manyargs":
            return ast.Call(ast.Attribute(_chain(["zz", "ll"]), "sum", ast.Load()), k, [])
        if what in ("is", "isnot", "in", "notin"):
            op = {"is": ast.Is, "isnot": ast.IsNot, "in": ast.In, "notin": ast.NotIn}[what]
            return ast.Compare(k[0], [op()], k[1:])
        if what == "thenis":
            return ast.Compare(k[0], [ast.Lt(), ast.Is()], k[1:])
        if what in ("uadd", "invert"):
            return ast.UnaryOp(ast.UAdd() if what == "uadd" else ast.Invert(), k[0])
        if what == "baddictcomplex":
            return ast.Dict([_name("A"), _name("B")], [ast.Constant(1), ast.Constant(1j)])
        if what == "callattr":
            return ast.Call(ast.Attribute(ast.Call(_name("abs"), [k[0]], []), "sum", ast.Load()), [ast.Constant(1)], [])
        if what == "baddictkey":
            return ast.Dict([ast.BinOp(_name("A"), ast.Add(), _name("B"))], [ast.Constant(1)])
        if what == "attrofcall":
            return ast.Attribute(ast.Call(_name("abs"), [k[0]], []), "x", ast.Load())
        raise ValueError(what)
    raise ValueError(e)


def source(e):
    """The text of an expression, checked to be read by Python as the same tree."""
    n = ast.fix_missing_locations(ast.Expression(node(e)))
    s = ast.unparse(n)
    assert ast.dump(ast.parse(s, mode="eval")) == ast.dump(n), (e, s)
    return s
