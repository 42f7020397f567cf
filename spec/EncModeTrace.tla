---------------------------- MODULE EncModeTrace ----------------------------
EXTENDS EncMode, TraceKit
TInitSt(t) == [mode |-> t.mode, rate |-> t.rate, prev |-> {}, n |-> 0]
Rng(q) == {q[i] : i \in 1..Len(q)}
Keys(rows) == {rows[i].k : i \in 1..Len(rows)}
Fl(s, e) ==
    IF e.op = "refuse" THEN Bad(e.what, e.out # "ok") ELSE
    IF e.out # "ok" THEN {"encryption succeeds"} ELSE
    LET first == s.n = 0
        new == Keys(e.rows) \ s.prev
        within == e.d <= s.rate
        fresh(k) == FreshRow(s.mode, first, e.drew = 1 /\ within, k \in s.prev)
    IN   Bad("exactly the rows of the input", Len(e.res) = Len(e.rows) /\ Keys(e.res) = Keys(e.rows))
    \cup (IF Keys(e.res) # Keys(e.rows) THEN {} ELSE
         LET R(k) == CHOOSE x \in Rng(e.res) : x.k = k IN
            Bad("rows keep shape and container", \A x \in Rng(e.rows) : R(x.k).form = x.form /\ Len(R(x.k).v) = Len(x.v))
       \cup Bad("every row decrypts to the current values", \A x \in Rng(e.rows) : R(x.k).v = x.v)
       \cup Bad("newly encrypted whenever the mode demands it", \A x \in Rng(e.rows) : fresh(x.k) => \A j \in 1..Len(R(x.k).f) : R(x.k).f[j] = 1)
       \cup Bad("otherwise updated by the difference", (~first /\ new = {} /\ (s.mode = "fast" \/ (s.mode = "balance" /\ e.drew = 1 /\ ~within)))
                    => \A x \in Rng(e.rows) : \A j \in 1..Len(R(x.k).f) : R(x.k).f[j] = 0)
       \cup Bad("the input is left as it was", e.kept = 1))
St(s, e) == IF e.op = "refuse" THEN s ELSE [s EXCEPT !.prev = Keys(e.rows), !.n = @ + 1]
Fin(s) == {}
=============================================================================
