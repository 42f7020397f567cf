----------------------------- MODULE FixedTrace -----------------------------
(* Executions of the real fixed-point numbers. An operation and the decoding of its result are one step: either   *)
(* it yields the exact number or it is refused, and it may be refused only when the result is out of range.       *)
EXTENDS Dyadic, TraceKit
TInitSt(t) == [kind |-> t.kind, n |-> t.n, m |-> t.m, regs |-> <<>>]
Edge(s) == s.kind = "edge"
Plus(s, x, y) == IF Edge(s) THEN <<x[1] + y[1], x[2] + y[2]>> ELSE DAdd(x, y)
Minus(s, x, y) == IF Edge(s) THEN <<x[1] - y[1], x[2] - y[2]>> ELSE DSub(x, y)
Times(s, x, y) == IF Edge(s) THEN <<x[1] * y[1], x[2] * y[1]>> ELSE DMul(x, y)
Above(x, a, b) == x[1] > a \/ (x[1] = a /\ x[2] > b)
Fits(s, v) == CASE s.kind = "toy" -> v[1] <= s.m /\ v[1] >= 0 - s.m
                [] Edge(s) -> ~Above(v, 1, 0) /\ ~Above(<<0 - v[1], 0 - v[2]>>, 1, 0)
                [] OTHER -> TRUE
Less(s, x, y) == IF Edge(s) THEN Above(y, x[1], x[2]) ELSE DLess(x, y)
Value(s, e) ==
    LET r == s.regs IN
    CASE e.op = "enc" -> e.v
      [] e.op = "add" -> Plus(s, r[e.i], r[e.j]) [] e.op = "sub" -> Minus(s, r[e.i], r[e.j]) [] e.op = "mul" -> Times(s, r[e.i], r[e.j])
      [] e.op \in {"addp", "radd"} -> Plus(s, r[e.i], e.v) [] e.op = "subp" -> Minus(s, r[e.i], e.v) [] e.op = "rsub" -> Minus(s, e.v, r[e.i])
      [] e.op \in {"mulp", "rmul"} -> Times(s, r[e.i], e.v) [] e.op = "divp" -> DDiv(r[e.i], e.v)
      [] e.op = "div" -> DDiv(r[e.i], r[e.j]) [] e.op = "rdiv" -> DDiv(e.v, r[e.i])
Arith == {"enc", "add", "sub", "mul", "addp", "radd", "subp", "rsub", "mulp", "rmul", "divp", "div", "rdiv"}
Takes(s, e) == e.op \notin {"addp", "radd", "subp", "rsub", "mulp", "rmul"} \/ (Edge(s) /\ e.op \in {"mulp", "rmul"}) \/ Fits(s, e.v)
\* six comparisons as 0/1: < > <= >= = #
Six(s, x, y) == LET lt == Less(s, x, y) gt == Less(s, y, x) b(p) == IF p THEN 1 ELSE 0 IN
                <<b(lt), b(gt), b(~gt), b(~lt), b(~lt /\ ~gt), b(lt \/ gt)>>
Hex(k) == P2(4 * k)
Half(v, w, x) == LET d == DSub(v, w) IN IF x >= 0 THEN ~DLess(<<1, 0>>, DMul(<<2 * Abs(d[1]), d[2]>>, <<Hex(x), 0>>))
                                         ELSE ~DLess(<<Hex(0 - x), 0>>, <<2 * Abs(d[1]), d[2]>>)
Fl(s, e) ==
    CASE e.op \in Arith ->
           IF Takes(s, e) /\ Fits(s, Value(s, e))
           THEN Bad("operations on representable numbers succeed", e.out = "ok")
                \cup (IF e.out = "ok" THEN Bad("the result is the plain result", e.w = Value(s, e)) ELSE {})
           ELSE IF Takes(s, e) THEN Bad("a result outside the range is refused", e.out # "ok")
           ELSE (IF Fits(s, Value(s, e)) THEN Bad("the result is the plain result or refused", e.out = "ok" => e.w = Value(s, e))
                 ELSE Bad("a number outside the range is refused", e.out # "ok"))
      [] e.op = "cmp" -> Bad("comparisons agree with the plain numbers", e.six = Six(s, s.regs[e.i], s.regs[e.j]))
      [] e.op = "cmpp" -> Bad("comparisons agree with the plain numbers", e.six = Six(s, s.regs[e.i], e.v))
      [] e.op = "round" -> Bad("encoding and decoding gives the number back", e.v = e.w)
      [] e.op = "prec" -> Bad("encoding with a precision succeeds", e.out = "ok")
           \cup (IF e.out = "ok" THEN Bad("off by at most half a unit of the chosen exponent", Half(e.v, e.w, e.x))
                                 \cup Bad("the unit is no larger than the precision asked for", IF e.x >= 0 THEN e.p[2] <= e.p[1] * Hex(e.x) ELSE e.p[2] * Hex(0 - e.x) <= e.p[1])
                                 \cup Bad("the exponent is at least the one asked for", e.x >= e.minx) ELSE {})
      [] e.op = "table" -> \* decodings of every residue and a few beyond; errors are reported as 1000000
           Bad("decoding tells sign, overflow and corruption apart",
               \A k \in 1..Len(e.xs) : e.vs[k] = (LET x == e.xs[k] IN IF x >= s.n THEN 1000000 ELSE IF x <= s.m THEN x ELSE IF x >= s.n - s.m THEN x - s.n ELSE 1000000))
      [] e.op = "refuse" -> Bad("a number outside the range is refused", e.out # "ok")
St(s, e) == IF e.op \in Arith /\ e.out = "ok" THEN [s EXCEPT !.regs = Append(@, Value(s, e))] ELSE s
Fin(s) == {}
=============================================================================
