------------------------------- MODULE Growth -------------------------------
(* What repeated observations of a quantity say: o[k] is what is held after round k.  The first Warm rounds do not count
   (things made when first needed); the rest is taken in windows of Width rounds.  The quantity grows if the least of every
   window exceeds the least of the one before by Least or more: something is kept in every round.  What is made once, or now
   and then comes and goes, does not grow in this sense. *)
EXTENDS Integers, Sequences
LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Windows(n, warm, width) == (n - warm) \div width
Floor(o, warm, width, w) == MinOf({o[warm + (w - 1) * width + i] : i \in 1..width})
Grows(o, warm, width, least) ==
    LET W == Windows(Len(o), warm, width)
    IN  W >= 2 /\ \A w \in 2..W : Floor(o, warm, width, w) - Floor(o, warm, width, w - 1) >= least
=============================================================================
