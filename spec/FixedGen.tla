------------------------------ MODULE FixedGen ------------------------------
(* Programs over fixed-point registers: "toy" (integers, small moduli), "big" (dyadic numbers, large moduli) and  *)
(* "edge" (integers a M + b near the limit of large moduli).                                                      *)
EXTENDS Dyadic, TLC, Json
CONSTANTS DEPTH
VARIABLES kind, mod, prog, regs
vars == <<kind, mod, prog, regs>>
Init == kind = "pick" /\ mod = 0 /\ prog = <<>> /\ regs = <<>>
Pick == /\ kind = "pick" /\ kind' = RandomElement({"toy", "big", "edge"}) /\ mod' = RandomElement(0..5) /\ UNCHANGED <<prog, regs>>
Num(x) == IF kind = "toy" THEN <<RandomElement({RandomElement(0 - 12..12), RandomElement(0 - 400..400), 333, 334, 0 - 333}), 0>>
          ELSE IF kind = "big" THEN RandomElement({<<RandomElement(0 - 99..99), 0>>, Norm(RandomElement(0 - 999..999), RandomElement(0..6)), <<0, 0>>, <<1, 0>>, <<0 - 1, 0>>})
          ELSE <<RandomElement({0, 0, 1, 0 - 1}), RandomElement(0 - 3..3)>>
Pow(x) == <<RandomElement({1, 2, 4, 8, 0 - 1, 0 - 2, 0 - 4}), RandomElement({0, 0, 1, 2})>>
IsPow(v) == Abs(v[1]) \in {1, 2, 4, 8, 16, 32, 64}
Ok(v) == IF kind = "big" THEN DSmall(v) ELSE IF kind = "toy" THEN Abs(v[1]) < 20000 ELSE Abs(v[1]) < 40 /\ Abs(v[2]) < 400
Plus(x, y) == IF kind = "edge" THEN <<x[1] + y[1], x[2] + y[2]>> ELSE DAdd(x, y)
Minus(x, y) == IF kind = "edge" THEN <<x[1] - y[1], x[2] - y[2]>> ELSE DSub(x, y)
Times(x, y) == IF kind = "edge" THEN <<x[1] * y[1], x[2] * y[1]>>
               ELSE IF Abs(x[1]) > 30000 \/ Abs(y[1]) > 30000 THEN <<100000000, 20>> ELSE DMul(x, y)
Res(o, i, j, v) ==
    CASE o \in {"enc", "cmp", "cmpp"} -> v
      [] o = "add" -> Plus(regs[i], regs[j]) [] o = "sub" -> Minus(regs[i], regs[j]) [] o = "mul" -> Times(regs[i], regs[j])
      [] o \in {"addp", "radd"} -> Plus(regs[i], v) [] o = "subp" -> Minus(regs[i], v) [] o = "rsub" -> Minus(v, regs[i])
      [] o \in {"mulp", "rmul"} -> Times(regs[i], v) [] o = "divp" -> DDiv(regs[i], v)
      [] o = "div" -> DDiv(regs[i], regs[j]) [] o = "rdiv" -> DDiv(v, regs[i])
Do(o, i, j, v) == /\ regs' = Append(regs, Res(o, i, j, v))
                  /\ prog' = Append(prog, [op |-> o, i |-> i, j |-> j, v |-> v])
                  /\ UNCHANGED <<kind, mod>>
Ops == {"enc", "add", "sub", "addp", "radd", "subp", "rsub", "mulp", "rmul", "cmp", "cmpp"}
       \cup (IF kind = "big" THEN {"mul", "divp", "div", "rdiv"} ELSE IF kind = "toy" THEN {"mul"} ELSE {})
Able(o, i, j, v) == (o = "div" => IsPow(regs[j])) /\ (o = "rdiv" => IsPow(regs[i])) /\ Ok(Res(o, i, j, v))
Step == /\ kind # "pick" /\ Len(prog) < DEPTH
        /\ \E o \in {IF regs = <<>> THEN "enc" ELSE RandomElement(Ops)} :
           \E i \in {IF regs = <<>> THEN 1 ELSE RandomElement(1..Len(regs))}, j \in {IF regs = <<>> THEN 1 ELSE RandomElement(1..Len(regs))} :
           \E v \in {IF o \in {"divp", "rdiv"} THEN Pow(prog) ELSE IF kind = "edge" /\ o \in {"mulp", "rmul"} THEN <<RandomElement(0 - 3..3), 0>> ELSE Num(prog)} :
           \E w \in {Num(regs)} :
           IF Able(o, i, j, v) THEN Do(o, i, j, v) ELSE Do("enc", i, j, w)
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Emit == Len(prog) = DEPTH => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, mod |-> mod, prog |-> prog]))
=============================================================================
