------------------------------ MODULE Dispatch ------------------------------
(* Initialisation and dispatch of a library limited to angular momentum MaxAm and order MaxDer. *)
EXTENDS Tree, Integers

VARIABLES ready        \* initialised (and not finalised since)

DInit == ready = FALSE
Initialise == ready' = TRUE
Finalise == ready' = FALSE

(* One call. c.der, c.am: what was asked for; c.tol a tolerance in units of 1/8; c.maxp, c.maxq the screening maxima
   in units of 1/64; c.ran the routines that ran, c.tol2 the squared tolerance they got in units of 1/64;
   c.same: the routine saw the same pairs and the same buffers; c.want what the routine returned *)
CallOK(c) ==
  LET skippable == c.tol > 0 /\ c.maxp * c.maxq < c.tol * c.tol * 64
  IN IF c.ran = <<>>
     THEN skippable /\ c.ret < 0                          \* nothing could reach the tolerance (P06)
     ELSE /\ c.ran = <<Routine(c.der, c.am[1], c.am[2], c.am[3], c.am[4])>>
          /\ c.tol2 = c.tol * c.tol
          /\ c.same /\ c.ret = c.want

Call(c) == ready /\ CallOK(c) /\ UNCHANGED ready
=============================================================================
