------------------------------ MODULE MCGroup ------------------------------
EXTENDS PerfGroup
g_Samples == Numbers(atoi(IOEnv.SEED), atoi(IOEnv.COUNT))
g_Formats == SetToSeq({S \cup {R_GROUP} : S \in SUBSET {0, 1, 2, 4}})
g_FewFormats == <<{3}, {3, 2}, {3, 4}, {0, 1, 2, 3, 4}>>
N8(k) == OfNat(k, 8)
Big8 == <<255, 255, 255, 255, 255, 255, 255, 255>>
Base_ == <<<<"next">>, <<"back">>, <<"nth", N8(0)>>, <<"nth", N8(1)>>, <<"nth", N8(2)>>, <<"nthback", N8(0)>>,
           <<"nthback", N8(1)>>, <<"nthback", N8(2)>>, <<"len">>, <<"rev">>, <<"last">>, <<"restart">>, <<"take", N8(2)>>, <<"takeback", N8(2)>>,
           <<"every", N8(2)>>, <<"skip", N8(1)>>>>
x_Steps(h) == Base_
g_Steps(h) == Base_ \o <<<<"nth", Big8>>, <<"nthback", Big8>>, <<"nth", N8(3)>>, <<"nthback", N8(4)>>, <<"hint">>, <<"fork">>, <<"count">>,
                         <<"fold">>, <<"rfold">>, <<"skip", Big8>>, <<"every", N8(3)>>, <<"take", Big8>>, <<"takeback", N8(1)>>,
                         <<"find", IF h.n > 1 THEN h.e[2].value ELSE N8(0)>>, <<"rfind", IF h.n > 1 THEN h.e[h.n - 1].value ELSE N8(0)>>,
                         <<"find", N8(5)>>, <<"rfind", N8(5)>>,
                         <<"get", N8(0)>>, <<"get", N8(H(sd, Len(script)) % 8)>>, <<"get", Big8>>, <<"glen">>, <<"empty">>, <<"single">>,
                         <<"entry", N8(H(sd, Len(script)) % 4)>>, <<"again", N8(H(sd, Len(script)) % 4)>>, <<"owned">>,
                         <<"byid", IF h.n > 0 /\ h.e[h.n].id # None THEN h.e[h.n].id[1] ELSE Big8>>,
                         <<"byid", IF h.n > 0 /\ h.e[1].id # None THEN h.e[1].id[1] ELSE N8(0)>>,
                         <<"byid", IF h.n > 0 THEN h.e[1].value ELSE N8(1)>>,
                         <<"byid", IF h.n > 0 /\ h.e[1].lost # None THEN h.e[1].lost[1] ELSE N8(1)>>>>
x_Sizes == <<0, 1, 2, 3>>
g_Sizes == <<0, 1, 1, 2, 3, 4, 5, 6, 9>>
g_Values == <<0, 1, 2, 3>>
x_Values == <<1>>
=============================================================================
