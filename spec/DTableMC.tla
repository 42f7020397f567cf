------------------------------ MODULE DTableMC ------------------------------
(* Exhaustive exploration of table programs, and (with -simulate) generation of programs to replay.         *)
EXTENDS DTable, TLC, Json
CONSTANTS KEYS, VALS, MAXLEN, DEPTH, GENERATE
VARIABLES s, prog
vars == <<s, prog>>
Tables2 == {<<>>} \cup {<<<<k, v>>>> : k \in KEYS, v \in VALS}
           \cup {<<<<k1, v1>>, <<k2, v2>>>> : k1, k2 \in KEYS, v1, v2 \in VALS}
LitTables == {t \in Tables2 : UniqueKeys(t)}
Base == [op |-> "", a |-> 1, b |-> 1, dst |-> 1, f |-> "", g |-> "", n |-> 0, items |-> <<>>, vals |-> <<>>]
Regs == 1..R
Ok(e) == Len(prog) < DEPTH /\ \A i \in Regs : LET t == DStepSt(s, e).regs[i] IN
            Len(t) <= MAXLEN /\ \A j \in 1..Len(t) : t[j][2] <= 1000 /\ t[j][2] >= 0 - 1000
Lit == \E d \in Regs, t \in LitTables : LET e == [Base EXCEPT !.op = "new", !.dst = d, !.items = t] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Enum == \E d \in Regs, v \in VALS, w \in VALS : LET e == [Base EXCEPT !.op = "enum", !.dst = d, !.vals = <<v, w>>] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Map == \E d, a \in Regs, f \in {"inc", "kv", "neg", "zero"} : LET e == [Base EXCEPT !.op = "map", !.dst = d, !.a = a, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
MapV == \E d, a \in Regs, f \in {"inc", "neg", "zero"} : LET e == [Base EXCEPT !.op = "mapValues", !.dst = d, !.a = a, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
MapP == \E d, a \in Regs, f \in {"values", "keys", "dup", "count", "empty"} : LET e == [Base EXCEPT !.op = "mapPartitions", !.dst = d, !.a = a, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
MapRP == \E d, a \in Regs, g \in {"same", "mod2", "byval", "one"}, f \in {"sub", "left", "right", "sum", "mix"} :
            LET e == [Base EXCEPT !.op = "mapReducePartitions", !.dst = d, !.a = a, !.f = f, !.g = g] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Filter == \E d, a \in Regs, f \in {"even", "kbig", "all", "none", "pos"} : LET e == [Base EXCEPT !.op = "filter", !.dst = d, !.a = a, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Join == \E d, a, b \in Regs, f \in {"sub", "left", "right", "sum", "mix", "default"} : LET e == [Base EXCEPT !.op = "join", !.dst = d, !.a = a, !.b = b, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Union == \E d, a, b \in Regs, f \in {"sub", "left", "right", "sum", "mix", "default"} : LET e == [Base EXCEPT !.op = "union", !.dst = d, !.a = a, !.b = b, !.f = f] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Subtract == \E d, a, b \in Regs : LET e == [Base EXCEPT !.op = "subtractByKey", !.dst = d, !.a = a, !.b = b] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
SetSchema == \E a \in Regs, n \in {1, 2} : LET e == [Base EXCEPT !.op = "setschema", !.a = a, !.n = n] IN Ok(e) /\ s' = DStepSt(s, e) /\ prog' = Append(prog, e)
Init == s = DInitSt /\ prog = <<>>
Next == Lit \/ Enum \/ Map \/ MapV \/ MapP \/ MapRP \/ Filter \/ Join \/ Union \/ Subtract \/ SetSchema
Spec == Init /\ [][Next]_vars
View == <<s, Len(prog)>>
\* ------------------------------------------------ laws of the map algebra, checked in every reachable state
TypeOK == \A i \in Regs : UniqueKeys(s.regs[i])
Laws == \A i, j \in Regs :
    LET a == s.regs[i] b == s.regs[j] IN
    /\ UniqueKeys(OpJoin("sub", a, b)) /\ UniqueKeys(OpUnion("sub", a, b)) /\ UniqueKeys(OpMapReduce("mod2", "sum", a))
    /\ Keys(OpJoin("sub", a, b)) = Keys(a) \cap Keys(b)
    /\ Keys(OpUnion("sub", a, b)) = Keys(a) \cup Keys(b)
    /\ Keys(OpSubtract(a, b)) = Keys(a) \ Keys(b)
    /\ \A k \in Keys(a) \cap Keys(b) : At(OpJoin("sub", a, b), k) = 0 - At(OpJoin("sub", b, a), k)
    /\ Len(OpSubtract(a, b)) + Len(OpJoin("left", a, b)) = Len(a)
    /\ Keys(OpUnion("left", OpSubtract(a, b), OpJoin("left", b, a))) = Keys(a)
    /\ Len(OpUnion("left", a, b)) = Len(a) + Len(b) - Len(OpJoin("left", a, b))
    /\ OpFilter("all", a) = a /\ OpFilter("none", a) = <<>>
\* operand tables are untouched: only the destination register can change
OnlyDst == [][\A i \in Regs : i # prog'[Len(prog')].dst => s'.regs[i] = s.regs[i]]_vars
\* ------------------------------------------------ behaviours for replay
Emit == (GENERATE /\ Len(prog) = DEPTH) => PrintT("BEHAVIOUR " \o ToJson(prog))
=============================================================================
