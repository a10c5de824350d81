---------------------------- MODULE MCCrestBook ----------------------------
EXTENDS CrestBook, TLC, Json
CONSTANTS Cells, Rows
MCSheets == [1..Rows -> [1..N -> Cells]]
GenNext == Next /\ (verdict' # "reading" => PrintT(<<"BEH", ToJson([rows |-> sheet, read |-> verdict'])>>))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
