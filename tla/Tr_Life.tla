------------------------------ MODULE Tr_Life ------------------------------
EXTENDS TraceRun, Lifecycle
(* in.lens: chunk lengths; in.hex: chunks as hex when small enough to be decoded here;              *)
(* ref: facts computed outside: digests, and for compressed content what was compressed.            *)
Fed(m) == Sum(m.lens)
Con(t) == t.out.content
KeyOf(t, c) == SelectSeq(t.out.notes, LAMBDA n : n.n = c)
JudgeC02(t) ==
  LET m == t.in n == Fed(m) o == Con(t) IN
  NotesDiff(t.out.notes, LengthVocab, LengthNotes(m, n))
  \cup Clause(o.length = n, "content_length is " \o ToString(o.length) \o " not " \o ToString(n))
  \cup Clause(o.complete = m.complete, "complete")
  \cup Clause(o.hash = (IF NoContent(m) THEN m.ref.md5empty ELSE m.ref.md5raw), "content_hash")
  \cup UNION {Clause(KeyOf(t, "CL_INCORRECT")[k].v.content_length = "s" \o ToString(n), "CL_INCORRECT states the wrong size")
              : k \in 1..Len(KeyOf(t, "CL_INCORRECT"))}
  \cup (IF NoContent(m)
        THEN Clause(o.slen = 0 /\ o.dlength = 0, "sampled in no_content mode")
             \cup UNION {Clause(t.out.notes[k].n \notin ContentVerdicts, "looked at content: " \o t.out.notes[k].n) : k \in 1..Len(t.out.notes)}
        ELSE IF Layers(m) = <<>>
        THEN Clause(o.dlength = n, "decoded length") \cup Clause(o.dhash = m.ref.md5raw, "decoded hash")
             \cup Clause(o.sample = m.ref.rawprefix, "content_sample")
        ELSE Clause(o.slen = (IF o.dlength < SampleSize THEN o.dlength ELSE SampleSize), "sample size"))

\* what one-shot decoding by the reference implementation of the codings yields, or the reason it fails
Keyed(q) == [k \in 1..Len(q) |-> NoteKey(q[k], CodingSubject)]
JudgeC03(t) ==
  LET m == t.in o == Con(t) IN
  IF NoContent(m) THEN {}
  ELSE IF HasF(m, "hex") THEN
    LET d == Decoded(m, Concat(m.hex))
        got == Owned(t.out.notes, CodingVocab)
        lo == Surely(m, m.hex) IN
    IF d.exact
    THEN BagDiff(got, Keyed(d.notes))
         \cup Clause(o.dlength = HLen(d.out), "decoded length " \o ToString(o.dlength) \o " not " \o ToString(HLen(d.out)))
         \cup Clause(o.sample = HTake(d.out, SampleSize), "sample")
         \cup Clause(o.dhash = m.ref.md5sample, "decoded hash")
    ELSE {x \in BagDiff(got, Keyed(d.notes)) : StartsWith(x, "missing") \/ d.maybe = 0}
         \cup Clause(Len(got) <= Len(d.notes) + d.maybe, "a layer is reported more than once")
         \cup Clause(o.dlength <= HLen(d.out) /\ StartsWith(d.out, o.sample), "decoded past the corruption")
         \cup Clause(o.dlength >= HLen(lo), "what came before the broken chunk is lost")
         \cup Clause(o.dhash = m.ref.md5sample, "decoded hash")
  ELSE LET got == Owned(t.out.notes, CodingVocab) IN
    IF m.ref.fault = ""
    THEN BagDiff(got, IF m.ref.len > MaxDecoded THEN <<NoteKey("DECOMPRESSION_LIMIT", CodingSubject)>> ELSE <<>>)
         \cup (IF m.ref.len > MaxDecoded
               THEN Clause(o.dlength <= MaxDecoded /\ o.dlength >= m.ref.atleast, "decoded " \o ToString(o.dlength) \o " bytes")
               ELSE Clause(o.dlength = m.ref.len, "decoded length " \o ToString(o.dlength) \o " not " \o ToString(m.ref.len))
                    \cup Clause(o.dhash = m.ref.md5, "decoded hash"))
         \cup Clause(o.sample = m.ref.prefix, "sample")
    ELSE BagDiff(got, One(m.ref.fault # "open", NoteKey(m.ref.fault, CodingSubject)))
         \cup Clause(StartsWith(m.ref.prefix, o.sample), "decoded past the corruption")
         \cup Clause(o.dlength >= m.ref.atleast, "what came before the broken chunk is lost")
=============================================================================
