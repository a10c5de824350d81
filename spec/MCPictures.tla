----------------------------- MODULE MCPictures -----------------------------
EXTENDS Pictures, TLC, Json
VARIABLES hist
GenInit == Init /\ hist = <<>>
GenNext == \/ /\ Visit /\ hist' = Append(hist, recs'[Len(recs')])
              /\ (ops' = MaxOps => PrintT(<<"BEH", ToJson(hist')>>))
           \/ /\ Clear /\ hist' = Append(hist, <<>>)
              /\ (ops' = MaxOps => PrintT(<<"BEH", ToJson(hist')>>))
GenSpec == GenInit /\ [][GenNext]_<<recs, ops, band, hist>>
MCSpec == GenInit /\ [][Next /\ UNCHANGED hist]_<<recs, ops, band, hist>>
=============================================================================
