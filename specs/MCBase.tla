------------------------------- MODULE MCBase -------------------------------
(* Operations, as programs have them, for the explored models.                *)
EXTENDS Model, Frames, Logit

TextOf(codes) == <<"s", codes>>
A == TextOf(<<65>>)
B == TextOf(<<66>>)
C == TextOf(<<67>>)
D == TextOf(<<68>>)
Half == <<"n", 1, 2>>
N(k) == IntV(k)

MOp(op) == [op |-> op, dom |-> "model", m |-> "m"]
New(m) == [op |-> "new", dom |-> "model", m |-> m, precision |-> 8]
AddTo(m, parent, name, scale) == [op |-> "add_choice", dom |-> "model", m |-> m, parent |-> parent, name |-> name, scale |-> scale]
AddBatch(m, names, scales) == [op |-> "add_choices", dom |-> "model", m |-> m, names |-> names, scales |-> scales, form |-> "list"]
SetScale(m, path, scale) == [op |-> "set_scale", dom |-> "model", m |-> m, path |-> path, scale |-> scale]
Units(m, du) == [op |-> "set_du", dom |-> "model", m |-> m, du |-> [n \in DOMAIN du |-> <<du[n]>>], form |-> "index"]
Declare(m, name, k, o) == [op |-> "declare", dom |-> "model", m |-> m, name |-> name, k |-> k, o |-> o, fill |-> IntV(0),
                           rrow |-> TRUE, rcol |-> TRUE, mand |-> <<>>, links |-> TRUE]
DeclareMatrix(m, name, o, fill, rrow, rcol) == [Declare(m, name, "matrix", o) EXCEPT !.fill = fill, !.rrow = rrow, !.rcol = rcol]
Put1(m, name, data) == [op |-> "assign", dom |-> "model", m |-> m, name |-> name, data |-> data]
Scalar(v) == [t |-> "scalar", v |-> v, dt |-> "i"]
Series(dt, idx, v) == [t |-> "series", dt |-> dt, v |-> v, idx |-> [n \in DOMAIN idx |-> <<idx[n]>>]]
Array(dt, v) == [t |-> "array", dt |-> dt, v |-> v, idx |-> <<>>]
Matrix(idx, cols, v) == [t |-> "frame", dt |-> "f8", idx |-> idx, cols |-> cols, v |-> v]
Say(m, ast, flt, grp) == [op |-> "append", dom |-> "model", m |-> m,
                          x |-> [ast |-> ast, flt |-> flt, nat |-> IF flt = <<>> THEN 0 ELSE 1, grp |-> grp]]
ClearExprs(m) == [op |-> "clear_exprs", dom |-> "model", m |-> m]
DropGroup(m, g) == [op |-> "drop_group", dom |-> "model", m |-> m, g |-> g]
ClearScope(m) == [op |-> "clear_scope", dom |-> "model", m |-> m]
Validate(m, g) == [op |-> "validate", dom |-> "model", m |-> m, g |-> g]
Run(m, g, clear, check) == [op |-> "run", dom |-> "model", m |-> m, g |-> g, clear |-> clear, check |-> check]
Discrete(m, clear) == [op |-> "discrete", dom |-> "model", m |-> m, g |-> "", clear |-> clear, check |-> TRUE, seed |-> 5,
                       draws |-> 1, astype |-> "category"]
Preval(m, g, drop, cleanup) == [op |-> "preval", dom |-> "model", m |-> m, g |-> g, drop |-> drop, cleanup |-> cleanup]
Partial(m, idx, cols, v, rr, rc) == [op |-> "partial", dom |-> "model", m |-> m, dt |-> "f8", idx |-> [n \in DOMAIN idx |-> <<idx[n]>>],
                                     cols |-> cols, v |-> v, rr |-> rr, rc |-> rc]
Copy(m, n, du, declared, assigned, exprs, utils) ==
    [op |-> "copy", dom |-> "model", m |-> m, n |-> n, o_du |-> du, o_declared |-> declared, o_assigned |-> assigned,
     o_exprs |-> exprs, o_utils |-> utils]
SubsetOf(m, n, idx, mask) == [op |-> "subset", dom |-> "model", m |-> m, n |-> n, idx |-> [k \in DOMAIN idx |-> <<idx[k]>>], mask |-> mask]
Look(m) == [op |-> "look", dom |-> "model", m |-> m]

Sym(n) == <<"sym", n>>
Lit(k) == <<"num", IntV(k), "i">>
Plus(a, b) == <<"bin", "+", a, b>>
Times(a, b) == <<"bin", "*", a, b>>
Attr(names) == <<"attr", names>>

\* Frames
Name(v) == [k |-> "name", v |-> v, n |-> 0]
FrameOp(id, cols, kinds, data, idx, inames) ==
    [op |-> "frame", dom |-> "frame", id |-> id, cols |-> cols, kind |-> kinds, data |-> data, idx |-> idx, inames |-> inames,
     dt |-> NoFn, ldf |-> TRUE]
NoArgs == [on |-> <<>>, levels |-> <<>>, on_self |-> <<>>, on_other |-> <<>>, self_levels |-> <<>>, other_levels |-> <<>>]
LinkOp(f, target, name, args, pre) == [op |-> "link", dom |-> "frame", f |-> f, target |-> target, name |-> name, args |-> args,
                                       precompute |-> pre, ident |-> TRUE]
LookupOp(f, names) == [op |-> "lookup", dom |-> "frame", f |-> f, names |-> names, how |-> "attr"]
AggOp(f, path, func, arg, q) == [op |-> "agg", dom |-> "frame", f |-> f, path |-> path, func |-> func, arg |-> arg, q |-> q,
                                 intfill |-> IntV(-1), how |-> "attr"]
=============================================================================
