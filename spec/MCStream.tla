------------------------------ MODULE MCStream ------------------------------
(* Exhaustive small instance of PerfWorld: every record type under a set of  *)
(* configurations that contains every single option.                         *)
EXTENDS PerfWorld, PerfDraw
SidBits == {S_TID, S_TIME, S_ID, S_STREAM_ID, S_CPU, S_IDENTIFIER}
StyPool == {{}, SidBits, KnownSample, {S_IDENTIFIER}, {S_ID, S_CPU}, {S_RAW, S_TID}, {S_READ, S_STACK_USER},
            {S_REGS_USER, S_AUX, S_REGS_INTR}, {S_BRANCH_STACK, S_WEIGHT_STRUCT}}
RfPool == {{}, {0, 1, 2, 4}, {3}, {3, 2}, {0, 3, 4}, {0, 1, 2, 3, 4}}
ConfPool(Ss, Rs) ==
    SetToSeq({[sty |-> OfBits(S, 8), rf |-> OfBits(R, 8), fl |-> OfBits(A, 8), bst |-> OfBits(H, 8),
      ru |-> OfBits({0, 9, 63}, 8), ri |-> OfBits({1, 62}, 8)] :
        S \in Ss, R \in Rs, A \in {{}, {A_SAMPLE_ID_ALL}}, H \in {{}, {B_HW_INDEX}}})
mc_Big == ConfPool(StyPool, RfPool)
mc_Small == ConfPool({{}, KnownSample, SidBits}, {{0, 1, 2, 4}, {0, 3, 2}})
mc_ChoicesBig(s, c) == mc_Big
mc_ChoicesSmall(s, c) == mc_Small
mc_Miscs == <<<<0, 0>>, OfBits({13, 14, 1}, 2)>>
mc_Types == [i \in 1..24 |-> IF i <= 22 THEN i ELSE IF i = 23 THEN 0 ELSE 4000]
mc_FewTypes == <<1, 3, 9, 10, 4000>>
mc_Del == <<[src |-> "slice", al |-> 0, want |-> "", fk |-> -1]>>
mc_DelF == <<[src |-> "slice", al |-> 0, want |-> "", fk |-> 0], [src |-> "slice", al |-> 0, want |-> "", fk |-> 3]>>
mc_Seeds == <<1, 2>>
mc_Seeds0 == <<0, 3>>
mc_Seed == <<4>>
mc_Damages == <<"none", "extra", "cut", "tiny">>
mc_None == <<"none">>
mc_Ents == <<"Little", "Big">>
=============================================================================
