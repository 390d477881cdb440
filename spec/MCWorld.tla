------------------------------ MODULE MCWorld ------------------------------
(* Instance of PerfWorld for sampling: any configuration, long      *)
(* streams, every kind of source, every way of reading.  IOEnv.PROP chooses  *)
(* what is emphasised; the behaviours become scenarios for the harness.      *)
EXTENDS PerfWorld, PerfDraw

Prop == IOEnv.PROP
Focus(ps) == Prop \in ps

w_Samples == Numbers(atoi(IOEnv.SEED), atoi(IOEnv.COUNT))

\* step 1: read_format, flags, masks;  steps 2..6: five sample_type bits each
w_Steps == 6
Rfs == SetToSeq(SUBSET (0..4))
Masks == <<{}, {3, 40}, {5, 6, 7, 63}, {0}>>
Flags_ == <<{}, {A_SAMPLE_ID_ALL}, (0..63) \ {A_SAMPLE_ID_ALL}, 0..63, {A_SAMPLE_ID_ALL}>>
Sets(lo) == SetToSeq(SUBSET (lo..(lo + 4))) \o [i \in 1..24 |-> {}] \o [i \in 1..8 |-> lo..(lo + 4)]
Sets5 == [j \in 0..4 |-> Sets(5 * j)]
w_Choices(s, c) ==
    IF s = 1 THEN
        LET g(q, k) == Drawn(sd, q, 1000 + k) IN
        <<[c EXCEPT !.rf = OfBits(g(Rfs, 1), 8), !.fl = OfBits(g(Flags_, 2), 8),
                    !.bst = OfBits(g(<<{}, {B_HW_INDEX}>>, 3), 8),
                    !.ru = OfBits(g(Masks, 4), 8), !.ri = OfBits(g(Masks, 5), 8)]>>
    ELSE LET x == Drawn(sd, Sets5[s - 2], 1100 + s) IN
         <<[c EXCEPT !.sty = OfBits(BitsOf(c.sty) \cup x, 8)]>>

AllTypes == [i \in 1..21 |-> i] \o <<9, 9, 10, 0, 22, 4000>>
w_Types == IF Focus({"C04"}) THEN <<9>> ELSE IF Focus({"C18"}) THEN <<9, 11, 17, 18>> ELSE AllTypes
w_Miscs == <<<<0, 0>>, OfBits({13}, 2), OfBits({14}, 2), <<255, 255>>, <<2, 0>>>>
w_Seeds == [i \in 1..40 |-> i - 1]
w_Damages == IF Focus({"C01", "C10", "C17", "C08"}) THEN <<"none", "extra", "cut", "none", "tiny">>
             ELSE <<"none", "none", "extra">>
w_Ents == <<"Native", "Little", "Big", "DynL", "DynB", "CustL", "CustB">>
Want == CASE Prop = "C15" -> "lk" [] Prop = "C19" -> "ck" [] Prop = "C20" -> "d" [] Prop = "C05" -> "c"
          [] Prop = "C13" -> "c" [] OTHER -> ""
Fks == IF Focus({"C14"}) THEN {0, 1, 2, 3, 4, 5, 9} ELSE {-1}
Plain == SetToSeq(
    {[src |-> "slice", al |-> a, want |-> Want, fk |-> fk] : fk \in Fks, a \in {0, 8, 1, 4, 16, 24, 32, 40, 48, 2}}
    \cup {[src |-> "buf", c |-> c, reads |-> rs, al |-> 0, want |-> Want, fk |-> fk] : fk \in Fks, c \in {1, 7, 16, 64}, rs \in {<<>>, <<1>>, <<3, 8>>}}
    \cup {[src |-> "chunks", c |-> c, temp |-> t, hint |-> h, al |-> a, want |-> Want, fk |-> fk] : fk \in Fks,
             c \in {1, 5, 8, 24, 1000}, t \in {"all", "none", "alt"}, h \in BOOLEAN, a \in {0, 3}})
\* a slice cannot fail
w_Del == IF Focus({"C14"}) THEN SelectSeq(Plain, LAMBDA d : d.src # "slice") ELSE Plain
w_Ways == {"rec", "vis", "one", "mmap", "meta", "hdr"}
w_MaxRecs == 4

\* C06: first as one aligned slice; C07: first in the other byte order
Other(e) == CASE e = "Native" -> "Big" [] e = "Little" -> "Big" [] e = "Big" -> "Little" [] e = "DynL" -> "DynB"
              [] e = "DynB" -> "DynL" [] e = "CustL" -> "CustB" [] e = "CustB" -> "CustL"
RECURSIVE Rewire(_, _)
Rewire(en, i) ==
    IF i > Len(recs) THEN <<>>
    ELSE LET r == recs[i].r
             body == PutBody(Conf_, en, r)
             tr == PutTrailer(Conf_, en, r)
         IN  (CASE recs[i].dmg = "none" -> PutFrame(en, r, body \o tr)
                [] OTHER -> PutFrame(en, r, body \o <<1, 2, 3, 4, 5, 6, 7, 8>> \o tr)) \o Rewire(en, i + 1)
RefOpen ==
    LET plain == [o EXCEPT !.src = "chunks", !.cuts = <<Len(wire)>>, !.temp = <<TRUE>>, !.hint = TRUE,
                           !.cap = 0, !.reads = <<>>, !.al = 0, !.ref = "set"]
    IN  IF Prop = "C06" THEN plain
        ELSE LET e == Other(ent) IN
             [plain EXCEPT !.b = Rewire(En(e), 1), !.ent = e, !.en = En(e), !.nat = Nat_(e)]
\* typed parses of the whole input have positions that depend on the order of
\* nothing; the raw rest of a body does depend on the byte order
Comparable == Focus({"C06"}) \/ \A i \in 1..Len(hist) : hist[i].op # "rest"
Scenarios ==
    st = "done" =>
        IF Focus({"C06", "C07"})
        THEN Comparable => /\ PrintT("SCENARIO " \o ToJson([open |-> RefOpen, ops |-> hist]))
                           /\ PrintT("SCENARIO " \o ToJson([open |-> [o EXCEPT !.ref = "cmp"], ops |-> hist]))
        ELSE PrintT("SCENARIO " \o ToJson([open |-> o, ops |-> hist]))
=============================================================================
