---------------------------- MODULE MCSubgroups ----------------------------
EXTENDS Subgroups, TLC, Json
V == {<<"i", <<1>>>>, <<"i", <<12>>>>, <<"l", <<1, 2>>>>}
N == {"n_residents", "weekday"}
NT == {"n_residents", "weekday", "quarter"}
D == {<<2014, 1, 1>>, <<2016, 2, 29>>, <<2015, 12, 31>>, <<2018, 9, 30>>}
DT == D \cup {<<2017, 4, 1>>, <<2000, 7, 2>>}
Done == Len(hist') = MaxOps
GenNext == Next /\ (Done => PrintT(<<"BEH", ToJson(hist')>>))
GenSpec == Init /\ sg = {} /\ [][GenNext]_vars
=============================================================================
