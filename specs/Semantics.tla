----------------------------- MODULE Semantics ------------------------------
(* What linked frames and expressions mean. A frame is a record               *)
(*   [cols, kind, data, idx, ldf, links, inst, colfill]                       *)
(* with data[c][r] the value of column c in row r, kind[c] the type of the    *)
(* column (i u f b s c t o n), inst and colfill the fill values set on it. A    *)
(* link is                                                                    *)
(*   [target, skeys, okeys, agg]                                              *)
(* where skeys[r] is the key of row r (<<>> for a row which did not exist     *)
(* when the link was made) and okeys[j] that of row j of the target. Frames   *)
(* derived from another one have the links of the other with the keys of the  *)
(* rows they were made from: this is what "links stay aligned" means.         *)
EXTENDS Values, TLC

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in DOMAIN s}
NoFn == [x \in {} |-> x]

DefaultFills ==
    [i |-> IntV(0), u |-> IntV(0), f |-> NaN, b |-> Bool(FALSE), s |-> <<"s", <<>>>>, c |-> NaN, t |-> NaN, o |-> NaN]

\* The fill for column c of frame F; cls are the package-wide defaults
Fill(F, cls, c) ==
    LET k == IF F.kind[c] = "n" THEN "o" ELSE F.kind[c] IN \* Integers that may be missing are objects
    IF F.ldf THEN
        IF c \in DOMAIN F.colfill THEN F.colfill[c]
        ELSE IF k \in DOMAIN F.inst THEN F.inst[k]
        ELSE cls[k]
    ELSE cls[k]

HasKey(key) == key # <<>> /\ \A p \in DOMAIN key : ~IsNaN(key[p])

\* The rows of the target which belong to row r (0: a row that does not exist), in the target's order
MatchRows(link, r) ==
    IF r = 0 THEN <<>>
    ELSE LET key == link.skeys[r] IN
         IF ~HasKey(key) THEN <<>>
         ELSE SelectSeq([j \in 1..Len(link.okeys) |-> j], LAMBDA j : link.okeys[j] = key)

TargetRow(link, r) == LET m == MatchRows(link, r) IN IF m = <<>> THEN 0 ELSE m[1]

\* Follows a chain of links which need no aggregation: <<frame, row>>
RECURSIVE ChainRow(_, _, _, _)
ChainRow(frames, fid, path, r) ==
    IF path = <<>> THEN <<fid, r>>
    ELSE LET link == frames[fid].links[Head(path)]
         IN ChainRow(frames, link.target, Tail(path), TargetRow(link, r))

ColumnThrough(frames, cls, fid, path, c, r) ==
    LET end == ChainRow(frames, fid, path, r) IN
    IF end[2] = 0 THEN Fill(frames[end[1]], cls, c) ELSE frames[end[1]].data[c][end[2]]

\* Whether a path can be followed: every link exists and needs no aggregation, except the last one if agg is true
RECURSIVE PathOk(_, _, _, _)
PathOk(frames, fid, path, agg) ==
    \/ path = <<>> /\ ~agg
    \/ /\ path # <<>>
       /\ Head(path) \in DOMAIN frames[fid].links
       /\ LET link == frames[fid].links[Head(path)] IN
          IF Len(path) = 1 THEN link.agg = agg
          ELSE ~link.agg /\ PathOk(frames, link.target, Tail(path), agg)

RECURSIVE PathTarget(_, _, _)
PathTarget(frames, fid, path) ==
    IF path = <<>> THEN fid ELSE PathTarget(frames, frames[fid].links[Head(path)].target, Tail(path))

-----------------------------------------------------------------------------
\* Types of expressions over a frame: i(nteger) u(nsigned) f(loat) b(oolean) s/c/t/o, or "?"
JoinKinds(a, b) == IF {a, b} \subseteq {"b", "i", "u"} THEN "i" ELSE IF {a, b} \subseteq {"b", "i", "u", "f"} THEN "f" ELSE "?"
RECURSIVE KindOf(_, _, _)
KindOf(e, frames, fid) ==
    CASE e[1] = "num" -> e[3]
      [] e[1] \in {"sym", "col"} -> IF e[2] \in DOMAIN frames[fid].kind THEN frames[fid].kind[e[2]] ELSE "?"
      [] e[1] = "attr" -> LET path == Front(e[2])
                          IN frames[PathTarget(frames, fid, path)].kind[Last(e[2])]
      [] e[1] \in {"nan", "neginf"} -> "f"
      [] e[1] = "un" -> IF e[2] = "not" THEN "b" ELSE KindOf(e[3], frames, fid)
      [] e[1] \in {"cmp", "bool"} -> "b"
      [] e[1] = "bin" -> IF e[2] = "/" THEN "f"
                         ELSE IF e[2] \in {"&", "|", "^"} THEN "b"
                         ELSE JoinKinds(KindOf(e[3], frames, fid), KindOf(e[4], frames, fid))
      [] e[1] = "call" -> IF e[2] = "where" THEN LET a == KindOf(e[3][2], frames, fid) b == KindOf(e[3][3], frames, fid)
                                                 IN IF a = b THEN a ELSE JoinKinds(a, b)
                          ELSE IF e[2] \in {"maximum", "minimum"}
                               THEN JoinKinds(KindOf(e[3][1], frames, fid), KindOf(e[3][2], frames, fid))
                          ELSE IF e[2] = "abs" THEN KindOf(e[3][1], frames, fid)
                          ELSE "f"
      [] OTHER -> "?"

\* The type of the statistic of data of kind k
StatKind(f, k) ==
    CASE f = "count" -> "i"
      [] f \in {"mean", "median", "var", "std", "quantile"} -> "f"
      [] f \in {"sum", "prod"} -> IF k \in {"b", "i"} THEN "i" ELSE k
      [] OTHER -> k

AggFill(f, k, intfill) ==
    CASE StatKind(f, k) = "b" -> Bool(FALSE)
      [] StatKind(f, k) \in {"i", "u"} \/ k \in {"i", "u", "b"} -> intfill
      [] k = "?" -> Unspec
      [] OTHER -> NaN

-----------------------------------------------------------------------------
\* The value of an expression in one place. An environment is a record with field mode:
\*   "frame": row r of frame fid, with the local variables loc (each a single value or one value per row)
\*   "cell":  decision unit i and choice j of a model, with its symbols syms and choices ch (paths, padded with "." to
\*            the depth of the tree)
Dot == <<"s", <<46>>>>
Star == <<"s", <<95>>>>
Fits(key, node) == \* the node named by key, a sequence of names without "_"
    /\ Len(key) <= Len(node)
    /\ \A p \in DOMAIN node : node[p] = (IF p <= Len(key) THEN key[p] ELSE Dot)
Beneath(key, node) ==
    /\ Len(key) < Len(node)
    /\ \A p \in DOMAIN key : node[p] = key[p]
    /\ node[Len(key) + 1] # Dot
\* "A._.B" means "A._"
StarAt(key) ==
    IF \E p \in DOMAIN key : key[p] = Star
    THEN CHOOSE p \in DOMAIN key : key[p] = Star /\ \A q \in 1..(p - 1) : key[q] # Star
    ELSE 0
DictHits(key, node) ==
    LET p == StarAt(key) IN IF p = 0 THEN Fits(key, node) ELSE Beneath(SubSeq(key, 1, p - 1), node)
RECURSIVE DictVal(_, _)
DictVal(pairs, node) ==
    IF pairs = <<>> THEN IntV(0)
    ELSE IF DictHits(Last(pairs)[1], node) THEN Last(pairs)[2]
    ELSE DictVal(Front(pairs), node)

RECURSIVE Eval(_, _), AggParts(_, _, _, _, _, _, _, _, _), AggVal(_, _, _, _, _, _, _, _, _), ChainCompare(_, _)
RECURSIVE FoldBool(_, _)

FoldBool(op, vs) ==
    IF Len(vs) = 1 THEN vs[1]
    ELSE IF op = "and" THEN And(FoldBool(op, Front(vs)), Last(vs)) ELSE Or(FoldBool(op, Front(vs)), Last(vs))

ChainCompare(ops, vs) ==
    IF Len(ops) = 1 THEN Compare(ops[1], vs[1], vs[2])
    ELSE And(Compare(ops[1], vs[1], vs[2]), ChainCompare(Tail(ops), Tail(vs)))

SymVal(env, name) ==
    IF env.mode = "frame" THEN
        LET F == env.frames[env.fid] IN
        IF name \in DOMAIN F.data THEN F.data[name][env.r]
        ELSE LET l == env.loc[name] IN IF l.arr THEN l.v[env.r] ELSE l.v
    ELSE LET s == env.syms[name] IN
        CASE s.k = "number" -> s.d
          [] s.k = "vector" -> IF s.o = 0 THEN s.d[env.i] ELSE s.d[env.j]
          [] s.k = "matrix" -> s.d[env.i][env.j]
          [] OTHER -> Unspec

\* Where the attributes of a name start: <<frame, row, links to follow>>
Start(env, names) ==
    IF env.mode = "frame" THEN <<env.fid, env.r, names>>
    ELSE LET s == env.syms[names[1]]
         IN <<s.fid, s.rows[IF s.o = 0 THEN env.i ELSE env.j], Tail(names)>>

\* Statistics of the rows that match. The standard deviation is given by its square (but see AggVal).
AggParts(frames, cls, fid, r, path, f, arg, q, intfill) == \* [fill |-> whether it is the fill, v]
    LET pre  == ChainRow(frames, fid, Front(path), r)
        link == frames[pre[1]].links[Last(path)]
        rows == MatchRows(link, pre[2])
        vals == [n \in 1..Len(rows) |->
                    Eval(arg, [mode |-> "frame", frames |-> frames, cls |-> cls, fid |-> link.target, r |-> rows[n],
                               loc |-> NoFn])]
        res  == Statistic(f, vals, q)
    IN IF rows = <<>> \/ res = <<"fill">>
       THEN [fill |-> TRUE, v |-> AggFill(f, KindOf(arg, frames, link.target), intfill)]
       ELSE [fill |-> FALSE, v |-> res]
AggVal(frames, cls, fid, r, path, f, arg, q, intfill) ==
    LET p == AggParts(frames, cls, fid, r, path, f, arg, q, intfill) IN
    IF f = "std" /\ ~p.fill THEN (IF IsNaN(p.v) THEN NaN ELSE Sqrt(p.v)) ELSE p.v
\* As AggVal, but with the squares of standard deviations, which are rational
AggSquare(frames, cls, fid, r, path, f, arg, q, intfill) ==
    LET p == AggParts(frames, cls, fid, r, path, f, arg, q, intfill) IN
    IF f = "std" /\ p.fill THEN Mul(p.v, p.v) ELSE p.v

Call(f, vs) ==
    CASE f = "where" -> IF IsBool(vs[1]) THEN (IF IsTrue(vs[1]) THEN vs[2] ELSE vs[3]) ELSE Unspec
      [] f = "abs" -> AbsV(vs[1])
      [] f = "sqrt" -> Sqrt(vs[1])
      [] f = "floor" -> Floor(vs[1])
      [] f = "ceil" -> Ceil(vs[1])
      [] f = "sign" -> SignV(vs[1])
      [] f = "maximum" -> MaxV(vs[1], vs[2])
      [] f = "minimum" -> MinV(vs[1], vs[2])
      [] f = "isnan" -> IF IsAny(vs[1]) THEN Unspec ELSE Bool(IsNaN(vs[1]))
      [] f = "log" -> Ln(vs[1])
      [] f = "exp" -> Exp(vs[1])
      [] f = "log10" -> Log10(vs[1])
      [] f = "trunc" -> Trunc(vs[1])
      [] f = "round" -> Round(vs[1])
      [] f = "fmod" -> Fmod(vs[1], vs[2])
      [] f = "contains" -> Contains(vs[1], vs[2])
      [] OTHER -> Unspec

Eval(e, env) ==
    CASE e[1] = "num" -> e[2]
      [] e[1] = "nan" -> NaN
      [] e[1] = "neginf" -> NInf
      [] e[1] \in {"sym", "col"} -> SymVal(env, e[2])
      [] e[1] = "attr" ->
            LET s == Start(env, e[2]) IN ColumnThrough(env.frames, env.cls, s[1], Front(s[3]), Last(s[3]), s[2])
      [] e[1] = "agg" ->
            LET s == Start(env, e[2]) IN AggVal(env.frames, env.cls, s[1], s[2], s[3], e[3], e[4], IntV(0), IntV(-1))
      [] e[1] = "un" -> IF e[2] = "not" THEN Not(Eval(e[3], env)) ELSE Neg(Eval(e[3], env))
      [] e[1] = "bin" ->
            LET a == Eval(e[3], env) b == Eval(e[4], env) IN
            (CASE e[2] = "+" -> Add(a, b)
              [] e[2] = "-" -> Sub(a, b)
              [] e[2] = "*" -> Mul(a, b)
              [] e[2] = "/" -> Div(a, b)
              [] e[2] = "**" -> Pow(a, b)
              [] e[2] = "%" -> Mod(a, b)
              [] e[2] = "//" -> FloorDiv(a, b)
              [] e[2] = "&" -> And(a, b)
              [] e[2] = "|" -> Or(a, b)
              [] e[2] = "^" -> Xor(a, b))
      [] e[1] = "cmp" -> LET vs == [n \in DOMAIN e[3] |-> Eval(e[3][n], env)] IN ChainCompare(e[2], vs)
      [] e[1] = "bool" -> LET vs == [n \in DOMAIN e[3] |-> Eval(e[3][n], env)] IN FoldBool(e[2], vs)
      [] e[1] = "call" -> Call(e[2], [n \in DOMAIN e[3] |-> Eval(e[3][n], env)])
      [] e[1] = "dict" -> DictVal(e[2], env.ch[env.j])
      [] OTHER -> Unspec

-----------------------------------------------------------------------------
\* The shape of expressions
RECURSIVE SimpleNames(_), ChainNames(_), BadShape(_), DictKeys(_)
Kids(e) ==
    CASE e[1] = "un" -> <<e[3]>>
      [] e[1] = "bin" -> <<e[3], e[4]>>
      [] e[1] \in {"cmp", "bool", "call", "bad"} -> e[3]
      [] OTHER -> <<>>
\* Names used plainly, in any position. NaN and None name no symbol; the reserved words need no declaration.
SimpleNames(e) ==
    CASE e[1] = "sym" -> {e[2]}
      [] OTHER -> UNION {SimpleNames(Kids(e)[n]) : n \in DOMAIN Kids(e)}
\* Names used with attributes or aggregations
ChainNames(e) ==
    CASE e[1] \in {"attr", "agg"} -> {e[2][1]}
      [] OTHER -> UNION {ChainNames(Kids(e)[n]) : n \in DOMAIN Kids(e)}
\* The attributes and aggregations in an expression
RECURSIVE Attrs(_), Aggs(_)
Attrs(e) == IF e[1] = "attr" THEN {e[2]} ELSE UNION {Attrs(Kids(e)[n]) : n \in DOMAIN Kids(e)}
Aggs(e) == IF e[1] = "agg" THEN {e[2]} ELSE UNION {Aggs(Kids(e)[n]) : n \in DOMAIN Kids(e)}
\* Unsupported constructs
BadShape(e) == e[1] = "bad" \/ \E n \in DOMAIN Kids(e) : BadShape(Kids(e)[n])
DictKeys(e) ==
    CASE e[1] = "dict" -> {e[2][n][1] : n \in DOMAIN e[2]}
      [] OTHER -> UNION {DictKeys(Kids(e)[n]) : n \in DOMAIN Kids(e)}
=============================================================================
