-------------------------------- MODULE Draw --------------------------------
(* The share of features a party may use in a tree: num/den of n features, rounded down, at least one.        *)
EXTENDS Integers, Sequences, FiniteSets
Max(x, y) == IF x > y THEN x ELSE y
Share(n, num, den) == Max(1, (n * num) \div den)
=============================================================================
