------------------------------ MODULE AffineGen ------------------------------
EXTENDS OtherCiphers, TLC, Json
CONSTANTS DEPTH
VARIABLES key, prog, vals, kind
vars == <<key, prog, vals, kind>>
Init == key = [a |-> 0, b |-> 0, n |-> 0, mult |-> 0] /\ prog = <<>> /\ vals = <<>> /\ kind = "pick"
Pick == /\ kind = "pick" /\ kind' = RandomElement({"toy", "toy", "big"})
        /\ \E n \in {RandomElement({1009, 1000, 1024, 2500, 5040, 10007})}, a \in {RandomElement(1..900)}, b \in {RandomElement(0..5000)}, mu \in {RandomElement({1, 2, 4})} :
             Gcd(a, n) = 1 /\ key' = [a |-> a, b |-> b, n |-> n, mult |-> mu]
        /\ UNCHANGED <<prog, vals>>
Ok(v) == v < 30000 /\ v > 0 - 30000
Res(o, i, j, v) == CASE o = "enc" -> v [] o = "add" -> vals[i] + vals[j] [] o = "sub" -> vals[i] - vals[j] [] o \in {"mul", "rmul"} -> vals[i] * v
                     [] o = "zero" -> vals[i] [] o = "zsub" -> 0 - vals[i]
Do(o, i, j, v) == vals' = Append(vals, Res(o, i, j, v)) /\ prog' = Append(prog, [op |-> o, i |-> i, j |-> j, v |-> v]) /\ UNCHANGED <<key, kind>>
Step == /\ kind # "pick" /\ Len(prog) < DEPTH
        /\ \E o \in {IF vals = <<>> THEN "enc" ELSE RandomElement({"enc", "enc", "add", "add", "sub", "mul", "rmul", "zero", "zsub"})} :
           \E i \in {IF vals = <<>> THEN 1 ELSE RandomElement(1..Len(vals))}, j \in {IF vals = <<>> THEN 1 ELSE RandomElement(1..Len(vals))} :
           \E v \in {IF o \in {"mul", "rmul"} THEN RandomElement(0 - 4..5) ELSE RandomElement(0 - 60..400)} : \E w \in {RandomElement(0 - 60..300)} :
           IF Ok(Res(o, i, j, v)) THEN Do(o, i, j, v) ELSE Do("enc", i, j, w)
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars
Emit == Len(prog) = DEPTH => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, key |-> key, prog |-> prog]))
=============================================================================
