----------------------------- MODULE PerfReader -----------------------------
(* How the parser reads: the loops over chunk() and advance(), the fast path *)
(* for data that lies in one piece, and the list of pieces behind a record   *)
(* frame, which is itself a source.  Shaped after src/parse.rs and           *)
(* src/parsebuf.rs.                                                          *)
(*                                                                           *)
(* Checked: every call refines one step of PerfFlat, whatever the pieces;    *)
(* the source contract holds towards the outer source and towards the frame; *)
(* borrowed data is given for borrowed pieces only; nothing panics; every    *)
(* call returns.                                                             *)
EXTENDS PerfSource, FiniteSets
CONSTANTS Total,       \* input lengths 0..Total
          Sizes,       \* sizes of reads and frames; those beyond Total are claims nothing backs
          Reserve,     \* what is reserved for a claim when the source does not know its length
          MaxCalls

RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>} ELSE UNION {{Append(c, n) : c \in Comps(k)} : k \in 0..(n - 1)}

VARIABLES in,       \* the source: [len, cuts, temp, hint, hi, eof]
          src,      \* its state (PerfSource)
          cur,      \* frame: [on, parts (the first is the next), offset, len]
          cs,       \* the frame's state as a source (PerfSource)
          pc,       \* what the call is doing: [do, on, n, left, got, own]
          done,     \* calls made
          pos, sub, res,     \* what the user has seen (as in PerfFlat)
          panic, wrong       \* an assertion fired; the contract was broken
vars == <<in, src, cur, cs, pc, done, pos, sub, res, panic, wrong>>

Idle == [do |-> "idle"]
NoCur == [on |-> FALSE, parts |-> <<>>, offset |-> 0, len |-> 0]
Inputs == UNION {{[len |-> n, cuts |-> c, temp |-> t, hint |-> h, hi |-> x, eof |-> e] :
                    c \in Comps(n), t \in {"no", "yes", "odd"}, h \in BOOLEAN,
                    x \in 0..n, e \in BOOLEAN} : n \in 0..Total}
Init == /\ in \in Inputs
        /\ src = Source(0, 0) /\ cur = NoCur /\ cs = Source(0, 0)
        /\ pc = Idle /\ done = 0 /\ pos = 0 /\ sub = <<>> /\ res = <<>> /\ panic = FALSE /\ wrong = FALSE

IsTemp(p) == LET k == PieceAt(in.cuts, p) IN
             CASE in.temp = "no" -> FALSE [] in.temp = "yes" -> TRUE [] OTHER -> k % 2 = 1
Range(a, b) == [i \in 1..(b - a) |-> a + i - 1]     \* the bytes a .. b-1
Take(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Drop(s, k) == SubSeq(s, k + 1, Len(s))

Min_(a, b) == IF a < b THEN a ELSE b
\* a growing vector of capacity c that has to hold n
Vec(c, n) == IF n <= c THEN c ELSE Max_(2 * c, n)

\* ------------------------------------------------ the frame as a source
Front == cur.parts[1]
RECURSIVE Shed(_, _)          \* ParseBufCursor::advance_slow
Shed(parts, offset) == IF parts # <<>> /\ offset >= Len(parts[1].b) THEN Shed(Tail(parts), offset - Len(parts[1].b))
                       ELSE <<parts, offset>>

\* ------------------------------------------------ talking to either source
\* the pending chunk: its bytes, and whether they are temporary
OuterChunk == LET n == Offer(in.cuts, in.hi, src.pos) IN [b |-> Range(src.pos, src.pos + n), t |-> n > 0 /\ IsTemp(src.pos)]
InnerChunk == IF cur.parts = <<>> THEN [b |-> <<>>, t |-> FALSE]
              ELSE [b |-> Drop(Front.b, cur.offset), t |-> Front.t]
Chunk == IF pc.on = "src" THEN OuterChunk ELSE InnerChunk
S == IF pc.on = "src" THEN src ELSE cs
\* the source hears ev; advancing also moves the frame
Tell(evs) ==
    /\ wrong' = (wrong \/ FirstWrong(S, evs, 1) # 0)
    /\ IF pc.on = "src"
       THEN src' = Heard(src, evs, 1) /\ UNCHANGED <<cur, cs, panic>>
       ELSE /\ cs' = Heard(cs, evs, 1)
            /\ UNCHANGED src
            /\ LET as == SelectSeq(evs, LAMBDA e : e[1] = "a")
                   k == IF as = <<>> THEN 0 ELSE as[1][2]
                   sh == Shed(cur.parts, cur.offset + k)
               IN  IF as = <<>> THEN UNCHANGED <<cur, panic>>
                   ELSE /\ panic' = (panic \/ k > cur.len \/ (sh[1] = <<>> /\ sh[2] # 0))
                        /\ cur' = [cur EXCEPT !.parts = sh[1], !.offset = sh[2], !.len = IF k <= @ THEN @ - k ELSE 0]
Hint == IF pc.on = "src" THEN (IF in.hint THEN in.len - src.pos ELSE -1) ELSE cur.len

\* ------------------------------------------------ calls
Call(do, on, n) == [do |-> do, on |-> on, n |-> n, left |-> n, got |-> <<>>, own |-> FALSE, parts |-> <<>>, cap |-> 0]
CanOuter == pc = Idle /\ done < MaxCalls /\ pos >= 0
CanInner == pc = Idle /\ done < MaxCalls /\ sub # <<>>
Fresh == src' = [src EXCEPT !.bad = FALSE, !.asked = 0] /\ cs' = [cs EXCEPT !.bad = FALSE, !.asked = 0]
Begin == /\ \/ /\ CanOuter
               /\ \E n \in Sizes : \E d \in {"array", "bytes", "skip", "frame"} : pc' = Call(d, "src", n)
            \/ CanOuter /\ pc' = Call("rest", "src", 0)
            \/ CanInner /\ \E n \in Sizes : \E d \in {"array", "bytes", "skip"} : pc' = Call(d, "cur", n)
            \/ CanInner /\ pc' = Call("rest", "cur", 0)
         /\ done' = done + 1 /\ Fresh
         /\ UNCHANGED <<in, cur, pos, sub, res, panic, wrong>>

Seen == IF pc.on = "src" THEN pos ELSE sub[2]
\* the call returns; what was got must be the bytes from where the user stood
Return(got) ==
    /\ pc' = Idle
    /\ res' = IF got = Range(Seen, Seen + Len(got)) THEN <<"data", Seen, Seen + Len(got)>> ELSE <<"other", got>>
    /\ IF pc.on = "src" THEN pos' = pos + Len(got) /\ UNCHANGED sub
       ELSE sub' = [sub EXCEPT ![2] = @ + Len(got)] /\ UNCHANGED pos
Fails == /\ pc' = Idle /\ res' = <<"error">>
         /\ IF pc.on = "src" THEN pos' = -1 /\ (IF pc.do = "frame" THEN sub' = <<>> ELSE UNCHANGED sub)
            ELSE sub' = <<>> /\ UNCHANGED pos
Known == UNCHANGED <<in, done>>

\* parse_array: one chunk is enough, or fall back to the loop
Array == /\ pc.do = "array" /\ Known
         /\ IF pc.n = 0 THEN Return(<<>>) /\ UNCHANGED <<src, cur, cs, panic, wrong>>
            ELSE LET c == Chunk IN
            IF c.b = <<>> THEN Tell(<<<<"c", 0>>>>) /\ Fails
            ELSE IF Len(c.b) < pc.n
            THEN /\ Tell(<<<<"c", Len(c.b)>>>>) /\ pc' = [pc EXCEPT !.do = "fill"] /\ UNCHANGED <<pos, sub, res>>
            ELSE Tell(<<<<"c", Len(c.b)>>, <<"a", pc.n>>>>) /\ Return(Take(c.b, pc.n))
\* parse_bytes: borrowed from one piece, or copied by one of two loops
Bytes == /\ pc.do = "bytes" /\ Known
         /\ IF pc.n = 0 THEN Return(<<>>) /\ UNCHANGED <<src, cur, cs, panic, wrong>>
            ELSE LET c == Chunk IN
            IF c.b = <<>> THEN Tell(<<<<"c", 0>>>>) /\ Fails
            ELSE IF ~c.t /\ Len(c.b) >= pc.n
            THEN Tell(<<<<"c", Len(c.b)>>, <<"a", pc.n>>>>) /\ Return(Take(c.b, pc.n))
            ELSE /\ Tell(<<<<"c", Len(c.b)>>>>)
                 /\ pc' = [pc EXCEPT !.do = IF Hint >= pc.n THEN "fill" ELSE "grow", !.own = TRUE,
                                    !.cap = IF Hint >= pc.n THEN pc.n ELSE Min_(pc.n, IF Hint >= 0 THEN Hint ELSE Reserve)]
                 /\ UNCHANGED <<pos, sub, res>>
\* parse_to_slice, parse_bytes_slow, parse_bytes_ignored: take what is offered until enough
Loop == /\ pc.do \in {"fill", "grow", "skip"} /\ Known
        /\ IF pc.left = 0 THEN Return(pc.got) /\ UNCHANGED <<src, cur, cs, panic, wrong>>
           ELSE LET c == Chunk
                    k == IF Len(c.b) < pc.left THEN Len(c.b) ELSE pc.left IN
           IF c.b = <<>> THEN Tell(<<<<"c", 0>>>>) /\ Fails
           ELSE /\ Tell(<<<<"c", Len(c.b)>>, <<"a", k>>>>)
                /\ pc' = [pc EXCEPT !.got = @ \o Take(c.b, k), !.left = @ - k,
                                   !.cap = IF pc.own THEN Vec(@, Len(pc.got) + k) ELSE 0]
                /\ UNCHANGED <<pos, sub, res>>
\* parse_rest: until the source says it has ended
Rest == /\ pc.do = "rest" /\ Known
        /\ LET c == Chunk IN
           IF c.b = <<>>
           THEN /\ Tell(<<<<"c", 0>>>>)
                /\ IF pc.on = "cur" \/ in.eof \/ in.hi = in.len THEN Return(pc.got) ELSE Fails
           ELSE /\ Tell(<<<<"c", Len(c.b)>>, <<"a", Len(c.b)>>>>)
                /\ pc' = [pc EXCEPT !.got = @ \o c.b, !.cap = Vec(@, Len(pc.got) + Len(c.b))]
                /\ UNCHANGED <<pos, sub, res>>
\* ParseBufCursor::new
MakeFrame ==
    /\ pc.do = "frame" /\ Known
    /\ IF pc.left = 0
       THEN /\ pc' = Idle
            /\ cur' = [on |-> TRUE, parts |-> pc.parts, offset |-> 0, len |-> pc.n]
            /\ cs' = Source(0, 0)
            /\ sub' = <<pos, pos, pos + pc.n>> /\ res' = <<"frame", pos, pos + pc.n>> /\ pos' = pos + pc.n
            /\ UNCHANGED <<src, panic, wrong>>
       ELSE LET c == Chunk
                b == Take(c.b, pc.left) IN
            IF c.b = <<>> THEN Tell(<<<<"c", 0>>>>) /\ Fails
            ELSE /\ Tell(<<<<"c", Len(c.b)>>, <<"a", Len(b)>>>>)
                 /\ pc' = [pc EXCEPT !.parts = Append(@, [b |-> b, t |-> c.t]), !.left = @ - Len(b)]
                 /\ UNCHANGED <<pos, sub, res>>

Work == Array \/ Bytes \/ Loop \/ Rest \/ MakeFrame
Next == Begin \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

-------------------------------------------------------------- \* properties
Contract == ~wrong                       \* C21
NoPanic == ~panic                        \* C08
RightBytes == res = <<>> \/ res[1] # "other"
\* C21: between calls the source stands where the user does
HandOver == pc = Idle /\ pos >= 0 => src.pos = pos
\* C21: a successful call did not ask for data behind its end
NoOverAsk == (pc = Idle /\ res # <<>> /\ res[1] \in {"data", "frame"} /\ done > 0 /\ src.asked > 0 /\ ~src.bad)
                => src.asked <= src.pos
\* C09: what the call has reserved and what the frames keep of temporary pieces
RECURSIVE Kept(_)
Kept(parts) == IF parts = <<>> THEN 0 ELSE Kept(Tail(parts)) + (IF Head(parts).t THEN Len(Head(parts).b) ELSE 0)
Memory == (IF pc = Idle THEN 0 ELSE pc.cap + Kept(pc.parts)) + Kept(cur.parts)
Supplied == IF in.hint THEN in.len ELSE src.pos + src.off
MemoryBound == Memory <= Reserve + 3 * Supplied
FrameLeft == (cur.on /\ sub # <<>> /\ pc = Idle) => cur.len = sub[3] - sub[2]
Returns == [](pc # Idle => <>(pc = Idle))
Flat == INSTANCE PerfFlat WITH hi <- in.hi
Refines == Flat!Spec
=============================================================================
