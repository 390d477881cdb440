----------------------------- MODULE PerfCalls -----------------------------
(* The parser as a cursor: any sequence of primitive calls on any small      *)
(* input delivered in any pieces, by a source that may fail, with clones.    *)
(*                                                                           *)
(* Model-checked: successful calls return consecutive pieces of the input    *)
(* (taken = the bytes up to the position), a call that fails never gives     *)
(* data, what a clone does leaves the original alone.  The behaviours are    *)
(* replayed on the real crate.                                               *)
EXTENDS PerfParser, PerfDraw, Json

CONSTANTS Samples, Sel(_, _, _), Inputs(_), Deliveries(_), Ops(_), MaxOps, RefOf(_), PrintIt
VARIABLES sd, st, o, stack, taken, hist, last
vars == <<sd, st, o, stack, taken, hist, last>>

None_ == [op |-> [op |-> ""], r |-> <<>>, p |-> 0]
Init == /\ sd \in Samples /\ st = "input" /\ o = <<>> /\ stack = <<>> /\ taken = <<>> /\ hist = <<>>
        /\ last = None_

\* an input: [b, ent, cfg];  a delivery: [src, cuts, temp, hint, cap, reads, al, hi, fk]
En(e) == IF e \in {"Big", "DynB", "CustB"} THEN "B" ELSE "L"
Nat_(e) == e \in {"Native", "Little", "DynL"}
OpenWith(i, d) ==
    [op |-> "open", b |-> i.b, en |-> En(i.ent), ent |-> i.ent, nat |-> Nat_(i.ent), cfg |-> i.cfg,
     src |-> d.src, cuts |-> d.cuts, temp |-> d.temp, hint |-> d.hint, cap |-> d.cap, reads |-> d.reads,
     al |-> d.al, hi |-> d.hi, fk |-> d.fk, ek |-> IF d.fk < 0 \/ d.fk = 3 THEN "Eof" ELSE "External",
     cause |-> IF d.fk < 0 THEN "" ELSE "broken", ref |-> "", want |-> "", note |-> "calls"]
Open == /\ st = "input"
        /\ LET is == Inputs(sd) IN
           \E i \in Sel(sd, Len(is), 1) :
           LET ds == Deliveries(is[i]) IN
           \E d \in Sel(sd, Len(ds), 2) : o' = OpenWith(is[i], ds[d])
        /\ stack' = <<OpenFrame(o')>> /\ taken' = <<<<>>>> /\ st' = "run"
        /\ UNCHANGED <<sd, hist, last>>

Live == TopOf(stack)
\* where a direct slice must be given, and otherwise may be refused
DirectGiven(op) == DirectMust(o, Live, op)
Outcome(op) ==
    IF op.op # "sdirect" THEN Call(o, Live, op)
    ELSE IF ToNat(op.n) = 0 THEN DoneAt(<<>>, Live.p)
    ELSE LET e == Elems(Env(o, Live), op.t, ToNat(op.n), Live.p) IN
         IF DirectGiven(op) THEN DoneAt(Some(e.v), e.p)
         ELSE IF e.ok THEN DoneAt(None, Live.p) ELSE Fail(e.v, -1)

Bytes(from, to) == SubSeq(o.b, from + 1, to)
Do == /\ st = "run" /\ Len(hist) < MaxOps
      /\ LET ops == Ops(o) IN
         \E j \in Sel(sd, Len(ops), 100 + 3 * Len(hist)) :
         LET op == ops[j] IN
           CASE op.op = "clone" ->
                  /\ o.src # "buf" /\ Len(stack) < 3
                  /\ stack' = Push(stack, Live) /\ taken' = Append(taken, TopOf(taken))
                  /\ hist' = Append(hist, op) /\ UNCHANGED <<sd, st, o, last>>
             [] op.op = "pop" ->
                  /\ Len(stack) > 1
                  /\ stack' = Pop(stack) /\ taken' = Pop(taken)
                  /\ hist' = Append(hist, op) /\ UNCHANGED <<sd, st, o, last>>
             [] op.op = "clear" ->
                  /\ o.fk >= 0 /\ last.r # <<>> /\ ~last.r.ok
                  /\ \A h \in 1..Len(hist) : hist[h].op # "clear"
                  /\ stack' = [k \in 1..Len(stack) |-> Unfault(o, stack[k])]
                  /\ hist' = Append(hist, op) /\ UNCHANGED <<sd, st, o, last, taken>>
             [] OTHER ->
                  \E r \in {Outcome(op)} :
                  LET p == IF r.p >= 0 THEN r.p ELSE Live.p IN
                  /\ last' = [op |-> op, r |-> r, p |-> Live.p]
                  /\ stack' = MoveTop(stack, p)
                  /\ taken' = [taken EXCEPT ![Len(taken)] = @ \o (IF r.ok THEN Bytes(Live.p, p) ELSE <<>>)]
                  /\ hist' = Append(hist, op)
                  \* nobody knows where a failed call leaves the source
                  /\ st' = IF r.p < 0 THEN "lost" ELSE st
                  /\ UNCHANGED <<sd, o>>
\* calls whose outcome depends on that: made, not predicted
Blind == /\ st = "lost" /\ Len(hist) < MaxOps
         /\ LET ops == Ops(o) IN
            \E j \in Sel(sd, Len(ops), 100 + 3 * Len(hist)) :
               /\ ops[j].op \notin {"clone", "pop"}
               /\ ops[j].op = "clear" => o.fk >= 0 /\ \A h \in 1..Len(hist) : hist[h].op # "clear"
               /\ hist' = Append(hist, ops[j])
         /\ UNCHANGED <<sd, st, o, stack, taken, last>>
Stop == /\ st \in {"run", "lost"}
        /\ \/ Len(hist) = MaxOps
           \/ ~ENABLED (Do \/ Blind)
        /\ st' = "done" /\ UNCHANGED <<sd, o, stack, taken, hist, last>>
Next == Open \/ Do \/ Blind \/ Stop
Spec == Init /\ [][Next]_vars

------------------------------------------------------------- \* properties
OneCursor == st # "input" => \A k \in 1..Len(stack) : taken[k] = Bytes(0, stack[k].p)
InBounds == st # "input" => \A k \in 1..Len(stack) : stack[k].p <= stack[k].hi
CloneApart == [][ \A k \in 1..(Min2(Len(stack), Len(stack')) - 1) :
                     st # "input" => stack'[k].p = stack[k].p ]_vars
\* the value says which bytes were read
Spelled(op, v) ==
    CASE op.op \in {"u8", "u16", "u32", "u64"} -> Put(v, o.en)
      [] op.op \in {"arr", "bytes", "rest", "with"} -> v
      [] op.op \in {"rep", "slice"} /\ op.t \in {"u8", "u16", "u32", "u64"} ->
            FlattenSeq([j \in 1..Len(v) |-> Put(v[j], o.en)])
      [] op.op = "rep" /\ op.t = "a3" -> FlattenSeq(v)
      [] OTHER -> <<-1>>
ValueIsInput ==
    (st # "input" /\ last.r # <<>> /\ last.r.ok /\ Spelled(last.op, last.r.v) # <<-1>>) =>
        Spelled(last.op, last.r.v) = Bytes(last.p, last.r.p)
NoDataAtFault == (st # "input" /\ last.r # <<>> /\ last.r.ok /\ ~\E h \in 1..Len(hist) : hist[h].op = "clear")
                    => last.r.p <= o.hi
NeverInvalid == (st # "input" /\ last.r # <<>> /\ ~last.r.ok) => last.r.v # {}

Line(op, os) == PrintT("SCENARIO " \o ToJson([open |-> op, ops |-> os]))
Scenarios == (st = "done" /\ PrintIt) =>
    IF RefOf(o) = <<>> THEN Line(o, hist)
    ELSE Line(RefOf(o)[1], hist) /\ Line([o EXCEPT !.ref = "cmp"], hist)
=============================================================================
