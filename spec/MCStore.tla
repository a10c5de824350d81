------------------------------ MODULE MCStore ------------------------------
(* Histories for the conformance runs: loads of items (version, key) by new or kept instances, parses that fail,
   stops, disks that are full, cleared versions; and schedules of two processes. *)
EXTENDS Store, TLC, Json
CONSTANTS Versions, Keys, Fates, Steps, Turns
VARIABLES h
LoadStep == [op : {"load"}, v : Versions, k : Keys, fate : Fates, new : BOOLEAN]
ClearStep == [op : {"clear"}, v : Versions]
GInit == h = <<>>
HNext == Len(h) < Steps /\ \E s \in LoadStep \cup ClearStep :
           /\ (Len(h) = 0 => s.op = "load" /\ s.v = 1 /\ s.k = 1 /\ s.new)
           /\ h' = Append(h, s)
           /\ (Len(h) = Steps - 1 => PrintT(<<"BEH", ToJson([h |-> h'])>>))
TNext == Len(h) < Turns /\ \E p \in {1, 2} : h' = Append(h, p) /\ (Len(h) = Turns - 1 => PrintT(<<"BEH", ToJson([t |-> h'])>>))
HistInit == Init /\ GInit
HistSpec == HistInit /\ [][HNext /\ UNCHANGED vars]_<<h, vars>>
TurnSpec == HistInit /\ [][TNext /\ UNCHANGED vars]_<<h, vars>>
DesignSpec == HistInit /\ [][Next /\ UNCHANGED h]_<<h, vars>>
=============================================================================
