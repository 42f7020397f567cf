------------------------------- MODULE DTable -------------------------------
(* The in-memory data table as an insertion-ordered finite map: a sequence of <<key, value>> pairs with     *)
(* pairwise different keys. A machine of R registers, each holding a table and its schema, is stepped by    *)
(* the public operations; functions passed to the operations are drawn from a fixed library by name.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANT R
\* ---------------------------------------------------------------- finite maps as ordered pair sequences
Keys(t) == {t[i][1] : i \in 1..Len(t)}
KeySeq(t) == [i \in 1..Len(t) |-> t[i][1]]
ValSeq(t) == [i \in 1..Len(t) |-> t[i][2]]
Has(t, k) == \E i \in 1..Len(t) : t[i][1] = k
At(t, k) == t[CHOOSE i \in 1..Len(t) : t[i][1] = k][2]
UniqueKeys(t) == \A i, j \in 1..Len(t) : t[i][1] = t[j][1] => i = j
Enumerate(vs) == [i \in 1..Len(vs) |-> <<i - 1, vs[i]>>]
\* ---------------------------------------------------------------- the function library
F2(n, a, b) == CASE n = "sub" -> a - b [] n = "left" -> a [] n = "right" -> b [] n = "sum" -> a + b
                 [] n = "mix" -> 2 * a + 3 * b [] n = "default" -> a
MapF(n, k, v) == CASE n = "inc" -> v + 1 [] n = "kv" -> k + v [] n = "neg" -> 0 - v [] n = "zero" -> 0
Pred(n, k, v) == CASE n = "even" -> v % 2 = 0 [] n = "kbig" -> k > 1 [] n = "all" -> TRUE [] n = "none" -> FALSE
                   [] n = "pos" -> v > 0
RECURSIVE FlatMap2(_)
FlatMap2(vs) == IF vs = <<>> THEN <<>> ELSE <<Head(vs), Head(vs) + 10>> \o FlatMap2(Tail(vs))
PartF(n, t) == CASE n = "values" -> ValSeq(t) [] n = "keys" -> KeySeq(t) [] n = "dup" -> FlatMap2(ValSeq(t))
                 [] n = "count" -> <<Len(t)>> [] n = "empty" -> <<>>
MapperF(n, t) == CASE n = "same" -> t
                   [] n = "mod2" -> [i \in 1..Len(t) |-> <<t[i][1] % 2, t[i][2]>>]
                   [] n = "byval" -> [i \in 1..Len(t) |-> <<t[i][2], t[i][1]>>]
                   [] n = "one" -> [i \in 1..Len(t) |-> <<7, t[i][2]>>]
\* ---------------------------------------------------------------- the operations
OpMap(n, t) == [i \in 1..Len(t) |-> <<t[i][1], MapF(n, t[i][1], t[i][2])>>]
OpFilter(n, t) == SelectSeq(t, LAMBDA p : Pred(n, p[1], p[2]))
OpJoin(n, a, b) == LET c == SelectSeq(b, LAMBDA p : Has(a, p[1])) IN
                   [i \in 1..Len(c) |-> <<c[i][1], F2(n, At(a, c[i][1]), c[i][2])>>]
OpUnion(n, a, b) == [i \in 1..Len(a) |-> IF Has(b, a[i][1]) THEN <<a[i][1], F2(n, a[i][2], At(b, a[i][1]))>> ELSE a[i]]
                    \o SelectSeq(b, LAMBDA p : ~Has(a, p[1]))
OpSubtract(a, b) == SelectSeq(a, LAMBDA p : ~Has(b, p[1]))
RECURSIVE Fold(_, _)
Fold(n, vs) == IF Len(vs) = 1 THEN vs[1] ELSE F2(n, Fold(n, SubSeq(vs, 1, Len(vs) - 1)), vs[Len(vs)])
RECURSIVE Reduce2(_, _, _)
Reduce2(n, acc, ps) ==
    IF ps = <<>> THEN acc
    ELSE LET k == Head(ps)[1] v == Head(ps)[2] IN
         Reduce2(n, IF Has(acc, k) THEN [acc EXCEPT ![CHOOSE i \in 1..Len(acc) : acc[i][1] = k] = <<k, F2(n, @[2], v)>>]
                    ELSE Append(acc, <<k, v>>), Tail(ps))
OpMapReduce(m, n, t) == Reduce2(n, <<>>, MapperF(m, t))
OpTake(n, t) == SubSeq(t, 1, IF n < Len(t) THEN n ELSE Len(t))
\* table-valued operations
Result(regs, e) ==
    LET a == regs[e.a] b == regs[e.b] IN
    CASE e.op = "new" -> e.items
      [] e.op = "enum" -> Enumerate(e.vals)
      [] e.op \in {"map", "mapValues"} -> OpMap(e.f, a)
      [] e.op = "mapPartitions" -> Enumerate(PartF(e.f, a))
      [] e.op = "mapReducePartitions" -> OpMapReduce(e.g, e.f, a)
      [] e.op = "filter" -> OpFilter(e.f, a)
      [] e.op = "join" -> OpJoin(e.f, a, b)
      [] e.op = "union" -> OpUnion(e.f, a, b)
      [] e.op = "subtractByKey" -> OpSubtract(a, b)
TableOps == {"new", "enum", "map", "mapValues", "mapPartitions", "mapReducePartitions", "filter", "join", "union", "subtractByKey"}
\* observer operations: sequence of <<k, v>> pairs / scalar wrapped in a sequence; <<>> stands for None
Observe(regs, e) ==
    LET a == regs[e.a] IN
    CASE e.op \in {"collect", "get_kvs"} -> a
      [] e.op = "take" -> OpTake(e.n, a)
      [] e.op = "first" -> IF a = <<>> THEN <<>> ELSE <<a[1][2]>>
      [] e.op = "count" -> <<Len(a)>>
      [] e.op = "get_keys" -> KeySeq(a)
      [] e.op = "get_values" -> ValSeq(a)
      [] e.op = "reduce" -> IF a = <<>> THEN <<>> ELSE <<Fold(e.f, ValSeq(a))>>
PairObs == {"collect", "get_kvs", "take"}
ScalarObs == {"first", "count", "get_keys", "get_values", "reduce"}
BadKinds == {"dupkey", "notlist", "tuple", "dictdata", "notpair", "triple", "listpair", "badflag"}

DInitSt == [regs |-> [i \in 1..R |-> <<>>], schema |-> [i \in 1..R |-> 0]]
DStepSt(s, e) ==
    IF e.op \in TableOps THEN [regs |-> [s.regs EXCEPT ![e.dst] = Result(s.regs, e)], schema |-> [s.schema EXCEPT ![e.dst] = 0]]
    ELSE IF e.op = "setschema" THEN [s EXCEPT !.schema[e.a] = e.n]
    ELSE s
=============================================================================
