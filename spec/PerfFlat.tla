------------------------------ MODULE PerfFlat ------------------------------
(* What reading looks like to the user of a parser: one position over the    *)
(* input, moved by whole calls; and a record frame, which passes its bytes   *)
(* at once and gives a second position over exactly those.                   *)
(* (PerfReader refines this.)                                                *)
EXTENDS Integers, Sequences
CONSTANTS Sizes, Total
VARIABLES hi,      \* bytes the source will give
          pos,     \* position of the outer parser; -1 once a call failed
          sub,     \* <<>> or <<lo, p, hi>>: the sub-parser
          res      \* the last call: <<kind, from, to>> or <<"error">>
vars == <<hi, pos, sub, res>>

\* (bytes are told apart by their place in the input)
Init == hi \in 0..Total /\ pos = 0 /\ sub = <<>> /\ res = <<>>
Outer(n) == pos >= 0 /\ IF pos + n <= hi THEN pos' = pos + n /\ res' = <<"data", pos, pos + n>>
                        ELSE pos' = -1 /\ res' = <<"error">>
Read(n) == Outer(n) /\ UNCHANGED <<hi, sub>>
RestOf == /\ pos >= 0
          /\ \/ pos' = hi /\ res' = <<"data", pos, hi>>
             \/ pos' = -1 /\ res' = <<"error">>       \* the source failed rather than ended
          /\ UNCHANGED <<hi, sub>>
Frame(n) == /\ pos >= 0
            /\ IF pos + n <= hi THEN pos' = pos + n /\ sub' = <<pos, pos, pos + n>> /\ res' = <<"frame", pos, pos + n>>
               ELSE pos' = -1 /\ res' = <<"error">> /\ sub' = <<>>
            /\ UNCHANGED hi
SubRead(n) == /\ sub # <<>>
              /\ IF sub[2] + n <= sub[3]
                 THEN sub' = [sub EXCEPT ![2] = @ + n] /\ res' = <<"data", sub[2], sub[2] + n>>
                 ELSE sub' = <<>> /\ res' = <<"error">>
              /\ UNCHANGED <<hi, pos>>
SubRest == /\ sub # <<>> /\ sub' = [sub EXCEPT ![2] = sub[3]] /\ res' = <<"data", sub[2], sub[3]>>
           /\ UNCHANGED <<hi, pos>>
Next == \/ \E n \in Sizes : Read(n) \/ Frame(n) \/ SubRead(n)
        \/ RestOf \/ SubRest
Spec == Init /\ [][Next]_vars
=============================================================================
