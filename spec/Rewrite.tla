------------------------------ MODULE Rewrite ------------------------------
(* The observable part of rewriting a statement: which statements are handed *)
(* to the solver.  A statement is seen as its text, whether it contains a     *)
(* constraint of clingcon (con), and whether it contains pools (pool), whose  *)
(* expansion is a matter of the solver.  The meaning of the result is decided *)
(* by Session, which works with the meaning of the original statements.       *)
EXTENDS Naturals, Sequences

Rewrites(stm, con, pool, out) ==
    IF con THEN pool \/ Len(out) = 1
    ELSE IF pool THEN Len(out) >= 1
    ELSE out = <<stm>>
=============================================================================
