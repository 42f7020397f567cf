----------------------------- MODULE PaillierGen -----------------------------
(* Programs over ciphertext registers, for three kinds of keys: "toy" (modulus small enough to compute the group *)
(* here), "big" (real keys, exact dyadic numbers) and "edge" (real keys, integers a M + b near the range limit). *)
EXTENDS Dyadic, TLC, Json
CONSTANTS DEPTH
VARIABLES kind, key, prog, regs
vars == <<kind, key, prog, regs>>
Keys == <<<<3, 5>>, <<5, 7>>, <<7, 5>>, <<7, 11>>, <<13, 11>>, <<11, 19>>, <<19, 11>>, <<3, 11>>>>
Init == kind = "pick" /\ key = <<0, 0>> /\ prog = <<>> /\ regs = <<>>
Pick == /\ kind = "pick"
        /\ kind' = RandomElement({"toy", "toy", "big", "edge"})
        /\ key' = Keys[RandomElement(1..Len(Keys))]
        /\ UNCHANGED <<prog, regs>>
Num(x) == IF kind = "toy" THEN <<RandomElement(0 - 14..14), 0>>
          ELSE IF kind = "big" THEN RandomElement({<<RandomElement(0 - 99..99), 0>>, Norm(RandomElement(0 - 999..999), RandomElement(0..6)), <<0, 0>>, <<1, 0>>, <<0 - 1, 0>>})
          ELSE <<RandomElement({0, 0, 1, 0 - 1}), RandomElement(0 - 3..3)>>
Pow(x) == <<RandomElement({1, 2, 4, 8, 0 - 1, 0 - 2, 0 - 4}), RandomElement({0, 0, 1, 2})>>
Ok(v) == IF kind = "big" THEN DSmall(v) ELSE IF kind = "toy" THEN Abs(v[1]) < 20000 ELSE Abs(v[1]) < 40 /\ Abs(v[2]) < 400
Plus(x, y) == IF kind = "edge" THEN <<x[1] + y[1], x[2] + y[2]>> ELSE DAdd(x, y)
Minus(x, y) == IF kind = "edge" THEN <<x[1] - y[1], x[2] - y[2]>> ELSE DSub(x, y)
Times(x, y) == IF kind = "edge" THEN <<x[1] * y[1], x[2] * y[1]>>
               ELSE IF Abs(x[1]) > 30000 \/ Abs(y[1]) > 30000 THEN <<100000000, 20>> ELSE DMul(x, y)
Res(o, i, j, v) ==
    CASE o = "enc" -> v
      [] o = "add" -> Plus(regs[i], regs[j]) [] o = "sub" -> Minus(regs[i], regs[j])
      [] o \in {"addp", "radd"} -> Plus(regs[i], v) [] o = "subp" -> Minus(regs[i], v) [] o = "rsub" -> Minus(v, regs[i])
      [] o \in {"mulp", "rmul"} -> Times(regs[i], v) [] o = "divp" -> DDiv(regs[i], v)
Do(o, i, j, v) == /\ regs' = Append(regs, Res(o, i, j, v))
                  /\ prog' = Append(prog, [op |-> o, i |-> i, j |-> j, v |-> v])
                  /\ UNCHANGED <<kind, key>>
Ops == IF kind = "big" THEN {"enc", "add", "sub", "addp", "radd", "subp", "rsub", "mulp", "rmul", "divp"}
       ELSE {"enc", "add", "sub", "addp", "radd", "subp", "rsub", "mulp", "rmul"}
Step == /\ kind # "pick" /\ Len(prog) < DEPTH
        /\ \E o \in {IF regs = <<>> THEN "enc" ELSE RandomElement(Ops)} :
           \E i \in {IF regs = <<>> THEN 1 ELSE RandomElement(1..Len(regs))}, j \in {IF regs = <<>> THEN 1 ELSE RandomElement(1..Len(regs))} :
           \E v \in {IF o = "divp" THEN Pow(prog) ELSE IF kind = "edge" /\ o \in {"mulp", "rmul"} THEN <<RandomElement(0 - 3..3), 0>> ELSE Num(prog)} :
           \E w \in {Num(regs)} :
           IF Ok(Res(o, i, j, v)) THEN Do(o, i, j, v) ELSE Do("enc", i, j, w)
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Emit == Len(prog) = DEPTH => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, key |-> key, prog |-> prog]))
=============================================================================
