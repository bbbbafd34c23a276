-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Comparing what a trace of the implementation recorded with what the     *)
(* specification expects.  A note is represented by the string             *)
(* "CLASS@subject"; a set of note classes V is the vocabulary a property   *)
(* owns: within V the recorded and expected notes must be equal as bags.   *)
(***************************************************************************)
EXTENDS Text

NoteKey(n, s) == n \o "@" \o s
Keys(notes) == [i \in 1..Len(notes) |-> notes[i].k \o "@" \o notes[i].s]
Owned(notes, V) == Keys(SelectSeq(notes, LAMBDA x : x.n \in V))

BagDiff(got, want) ==
  LET ks == SeqSet(got) \cup SeqSet(want) IN
  UNION { LET g == CountIn(got, k) w == CountIn(want, k) IN
          IF g = w THEN {} ELSE IF g < w THEN {"missing:" \o k} ELSE {"unexpected:" \o k} : k \in ks }

NotesDiff(notes, V, want) == BagDiff(Owned(notes, V), want)
Clause(ok, name) == IF ok THEN {} ELSE {name}

Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(t, bad) == bad = {} \/ PrintT("BAD " \o ToJson([id |-> t.id, bad |-> bad]))
=============================================================================
