------------------------------- MODULE MCAttr -------------------------------
EXTENDS PerfAttr
\* exhaustive: every size, every single member and all of them
x_Sizes == [i \in 1..161 |-> i - 1] \o <<200, 256, 4096>>
OneEach == SetToSeq({{nm} : nm \in Names} \cup {Names, {}})
x_Fill(s) == IF s \in Published \cup {144, 200} THEN OneEach ELSE <<Names>>
x_Extras == <<"zero", "first", "last">>
x_Avail == <<"all", "less">>
\* two in a row
y_Sizes == <<64, 80, 112, 136, 144, 100>>
y_Fill(s) == <<Names, {}, {"sample_type", "sample_regs_intr"}>>
\* sampled
c_Samples == Numbers(atoi(IOEnv.SEED), atoi(IOEnv.COUNT))
c_Sizes == [i \in 1..60 |-> IF i <= 36 THEN <<64, 72, 80, 96, 104, 112, 120, 128, 136>>[(i % 9) + 1]
                            ELSE IF i <= 50 THEN 137 + i - 37 ELSE <<0, 4, 8, 63, 65, 68, 88, 100, 200, 300>>[i - 50]]
c_Fill(s) == <<{nm \in Names : H(sd, Member[nm][1] + 500) % 3 # 0}, Names,
               {Drawn(sd, SetToSeq(Names), 7)}>>
c_Extras == <<"zero", "zero", "zero", "first", "last">>
c_Avail == <<"all", "all", "all", "all", "all", "less">>
=============================================================================
