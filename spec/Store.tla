------------------------------- MODULE Store -------------------------------
(* The store of parsed data items: one or several files per item, loads that read them or parse and write them,
   any number of processes, and stops at every step.

   A load looks at the files of its item.  All there: it reads and returns them.  One missing: it parses the raw
   data once and writes the files, the last file last.  Whole says that a file takes its name only when it was
   written whole; without it (the negative model) a file is there from its first byte on. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs, Items, Parts, MaxStops, MaxLoads, Whole
ASSUME Parts \in Nat \ {0}
VARIABLES disk,     \* what stands under the name of each file: "none", "torn", or the item it was written for
          pc, want, at,      \* per process: what it does, for which item, at which file
          got,      \* per process: what its last load returned: <<>> or <<item>> or <<"torn">>
          parsed,   \* how often this load parsed
          late,     \* this load began after a load of the item had returned
          stops, loads, done
vars == <<disk, pc, want, at, got, parsed, late, stops, loads, done>>
File == Items \X (1..Parts)
Init == /\ disk = [f \in File |-> "none"]
        /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> CHOOSE i \in Items : TRUE] /\ at = [p \in Procs |-> 1]
        /\ got = [p \in Procs |-> <<>>] /\ parsed = [p \in Procs |-> 0] /\ late = [p \in Procs |-> FALSE]
        /\ stops = 0 /\ loads = 0 /\ done = {}
Begin(p, i) == /\ pc[p] = "idle" /\ loads < MaxLoads
               /\ pc' = [pc EXCEPT ![p] = "look"] /\ want' = [want EXCEPT ![p] = i] /\ at' = [at EXCEPT ![p] = 1]
               /\ got' = [got EXCEPT ![p] = <<>>] /\ parsed' = [parsed EXCEPT ![p] = 0] /\ late' = [late EXCEPT ![p] = i \in done]
               /\ loads' = loads + 1 /\ UNCHANGED <<disk, stops, done>>
Return(p, v) == /\ pc' = [pc EXCEPT ![p] = "idle"] /\ got' = [got EXCEPT ![p] = v] /\ done' = done \cup {want[p]}
Read(p) == /\ pc[p] = "look"
           /\ LET f == disk[<<want[p], at[p]>>] IN
                IF f = "none" THEN pc' = [pc EXCEPT ![p] = "parse"] /\ at' = [at EXCEPT ![p] = 1] /\ UNCHANGED <<got, done>>
                ELSE IF f = "torn" \/ at[p] = Parts THEN Return(p, <<f>>) /\ UNCHANGED at
                ELSE at' = [at EXCEPT ![p] = at[p] + 1] /\ UNCHANGED <<pc, got, done>>
           /\ UNCHANGED <<disk, want, parsed, late, stops, loads>>
Parse(p) == /\ pc[p] = "parse"
            /\ pc' = [pc EXCEPT ![p] = "write"] /\ parsed' = [parsed EXCEPT ![p] = @ + 1]
            /\ UNCHANGED <<disk, want, at, got, late, stops, loads, done>>
\* the raw data cannot be parsed: the load raises, nothing was written
ParseFails(p) == /\ pc[p] = "parse" /\ stops < MaxStops /\ stops' = stops + 1
                 /\ pc' = [pc EXCEPT ![p] = "idle"] /\ parsed' = [parsed EXCEPT ![p] = @ + 1]
                 /\ UNCHANGED <<disk, want, at, got, late, loads, done>>
Open(p) == /\ pc[p] = "write" /\ pc' = [pc EXCEPT ![p] = "writing"]
           /\ disk' = IF Whole THEN disk ELSE [disk EXCEPT ![<<want[p], at[p]>>] = "torn"]
           /\ UNCHANGED <<want, at, got, parsed, late, stops, loads, done>>
Put(p) == /\ pc[p] = "writing" /\ disk' = [disk EXCEPT ![<<want[p], at[p]>>] = want[p]]
          /\ IF at[p] = Parts THEN Return(p, <<want[p]>>) /\ UNCHANGED at
             ELSE pc' = [pc EXCEPT ![p] = "write"] /\ at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<got, done>>
          /\ UNCHANGED <<want, parsed, late, stops, loads>>
Stop(p) == /\ pc[p] # "idle" /\ stops < MaxStops
           /\ stops' = stops + 1 /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<disk, want, at, got, parsed, late, loads, done>>
Next == \E p \in Procs : (\E i \in Items : Begin(p, i)) \/ Read(p) \/ Parse(p) \/ ParseFails(p) \/ Open(p) \/ Put(p) \/ Stop(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NeverTorn == \A f \in File : disk[f] # "torn"
OwnFiles == \A f \in File : disk[f] \in {"none", "torn", f[1]}
RightValue == \A p \in Procs : got[p] \in {<<>>, <<want[p]>>}
ParsedAtMostOnce == \A p \in Procs : parsed[p] <= 1
StoredNotParsed == \A p \in Procs : late[p] => parsed[p] = 0
StoredStays == \A i \in done : \A k \in 1..Parts : disk[<<i, k>>] = i
=============================================================================
