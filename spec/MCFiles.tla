------------------------------ MODULE MCFiles ------------------------------
(* All short histories of two handles and the builder over one or two paths with faults; prints every history. *)
EXTENDS Files, TLC, Json
CONSTANTS Depth, Gen
VARIABLE hist
mvars == <<fvars, hist>>
P == {"a", "b"}
S == {1, 2}
X == <<120>>
XYZ == <<120, 121, 122>>
View == <<fvars, Len(hist)>>
Log(e) == hist' = Append(hist, e)
MInit == disk = [p \in P |-> Missing] /\ slot = [s \in S |-> NoSlot] /\ bld = NoBld /\ hist = <<>>
AOpen == \E s \in S, p \in P, m \in {"r", "w", "a", "r+"}, f \in {0, 5} : (f = 0 \/ (s = 1 /\ m = "w")) /\ Open(s, p, m, f) /\ Log(<<"open", s, p, m, f>>)
AMem == \E s \in S : \/ StreamNew(s) /\ Log(<<"snew", s>>)
                     \/ \E k \in {"ro", "clone", "rw"} : s = 1 /\ StreamOpen(s, XYZ, k) /\ Log(<<"sopen", s, k>>)
AWrite == \E s \in S, d \in {X, XYZ}, f \in {0, -1, 2} :
            /\ slot[s].k # "none" /\ (f = 0 \/ slot[s].k = "file")
            /\ LET o == slot[s].pos IN WriteAt(s, d, o, f, IF Whole(s, Len(d), o, f) THEN o + Len(d) ELSE SeekTo(s, o + Len(d)))
            /\ Log(<<"write", s, d, f>>)
ASeek == \E s \in S, o \in {0, 2} : slot[s].k # "none" /\ Seek(s, SeekTo(s, o)) /\ Log(<<"seek", s, o>>)
AClose == \E s \in S : Close(s) /\ Log(<<"close", s>>)
ABOpen == \E p \in P, f \in {0, 2} : (f = 0 \/ p = "a") /\ BuilderOpen(p, f) /\ Log(<<"bopen", p, f>>)
ABAdd == Len(bld.buf) < 4 /\ BuilderAdd(XYZ) /\ Log(<<"bfmt">>)
ABWrite == \E f \in {0, -1, 2} : BuilderWrite(f) /\ Log(<<"bwrite", f>>)
MNext == /\ Len(hist) < Depth
         /\ AOpen \/ AMem \/ AWrite \/ ASeek \/ AClose \/ ABOpen \/ ABAdd \/ ABWrite
         /\ (Gen => PrintT(ToJson(hist')))
MSpec == MInit /\ [][MNext]_mvars
(* an operation on one handle leaves every other handle and every other file as it was *)
OpenPaths == {slot[s].path : s \in {x \in S : slot[x].k = "file"}} \union (IF bld.open THEN {bld.path} ELSE {})
Local == [][\A p \in P : disk'[p] # disk[p] => p \in OpenPaths' \union OpenPaths]_mvars
NothingBeforeWrite == [][\A s \in S : (bld.open /\ bld'.open /\ bld' # bld) => disk' = disk]_mvars
ViewsDoNotGrow == [][\A s \in S : (slot[s].k = "mem" /\ slot'[s].k = "mem" /\ ~ slot[s].grow) => Len(slot'[s].buf) = Len(slot[s].buf)]_mvars
ReadOnlyKept == [][\A s \in S : (slot[s].k = "mem" /\ slot'[s].k = "mem" /\ ~ slot[s].wr) => slot'[s].buf = slot[s].buf]_mvars
HandlesBounded == Handles <= 3
NoLengthLoss == [][\A p \in P : (disk[p] # Missing) => disk'[p] # Missing]_mvars
=============================================================================
