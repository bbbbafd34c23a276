---------------------------- MODULE Tr_Sections ----------------------------
EXTENDS TraceRun, Sections
ParsedIn(sec, name) == LET p == sec.parsed hit == {k \in 1..Len(p) : p[k][1] = name} IN
                       IF hit = {} THEN "absent" ELSE p[CHOOSE k \in hit : TRUE][2]
Trailers(t) == IF HasF(t.in, "trailers") THEN t.in.trailers ELSE <<>>
VarOf(t, key, v) == LET q == SelectSeq(t.out.notes, LAMBDA n : n.k \o "@" \o n.s = key) IN
                    {q[k].v[v] : k \in 1..Len(q)}

\* C04
SecOk(o, ls, w) == Clause(o.text = Text(ls), w \o " text")
                   \cup Clause(o.size = SectionSize(ls), w \o " size " \o ToString(o.size) \o " not " \o ToString(SectionSize(ls)))
JudgeC04(t) ==
  LET h == t.in.headers tr == Trailers(t) kind == t.in.kind IN
  SecOk(t.out.headers, h, "header") \cup SecOk(t.out.trailers, tr, "trailer")
  \cup NotesDiff(t.out.notes, SectionVocab, SectionNotes(h, kind) \o SectionNotes(tr, kind))
  \cup (LET q == SelectSeq(t.out.notes, LAMBDA n : n.n = "FIELD_SECTION_TOO_LARGE")
            want == One(SectionSize(h) > MaxSection, <<"sheader", ToString(SectionSize(h))>>)
                    \o One(SectionSize(tr) > MaxSection, <<"strailer", ToString(SectionSize(tr))>>)
        IN Clause(\/ Len(q) # Len(want)
                  \/ \A k \in 1..Len(q) : \E j \in 1..Len(want) : q[k].v.field_type = want[j][1] /\ q[k].v.section_size = "s" \o want[j][2],
                  "section size note names the wrong section or size"))
  \cup UNION {LET n == t.out.notes[k] IN
              IF n.n # "FIELD_TOO_LARGE" THEN {}
              ELSE Clause(\E j \in 1..Len(h) + Len(tr) :
                            LET l == IF j <= Len(h) THEN h[j] ELSE tr[j - Len(h)] o == IF j <= Len(h) THEN j - 1 ELSE j - Len(h) - 1 IN
                            n.s = Off(o) /\ n.v.field_size = "s" \o ToString(LineSize(l)), "line size note states the wrong size")
              : k \in 1..Len(t.out.notes)}
  \* a note tied to a line names the field on that line
  \cup UNION {LET n == t.out.notes[k] IN
              IF ~StartsWith(n.s, "offset-") \/ n.n \notin {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED", "FIELD_VALUE_ENCODING"} THEN {}
              ELSE Clause(\E j \in 1..Len(h) + Len(tr) :
                            LET l == IF j <= Len(h) THEN Text(h)[j] ELSE Text(tr)[j - Len(h)] o == IF j <= Len(h) THEN j - 1 ELSE j - Len(h) - 1
                                nm == l[1] IN
                            n.s = Off(o) /\ Lower(n.fld) = Lower(IF Known(nm) /\ Entry(nm).c # "" /\ n.n # "FIELD_VALUE_ENCODING" THEN Entry(nm).c ELSE nm),
                          n.n \o "@" \o n.s \o " is about another line's field: " \o n.fld)
              : k \in 1..Len(t.out.notes)}

\* C06
JudgeC06(t) ==
  LET h == t.in.headers tr == Trailers(t) kind == t.in.kind IN
  NotesDiff(t.out.notes, PlaceVocab, PlaceNotes(h, kind) \o PlaceNotes(tr, kind))
  \cup UNION {LET n == Lower(Text(h)[k][1]) IN
              IF ~Misplaced(n, kind) THEN {}
              ELSE Clause(ParsedIn(t.out.headers, n) \in {"None", "[]"}, "misplaced " \o n \o " has the value " \o ParsedIn(t.out.headers, n))
              : k \in 1..Len(h)}
  \cup (IF tr # <<>> THEN {}
        ELSE UNION {LET n == t.out.notes[k]
                        j == {ln \in 1..Len(h) : n.s = Off(ln - 1)} IN
                    IF j = {} THEN {}
                    ELSE Clause(~Ignored(Text(h)[CHOOSE ln \in j : TRUE][1], kind) \/ n.n \in PlaceVocab \cup SectionVocab, "not ignored: " \o n.k \o "@" \o n.s)
                    : k \in 1..Len(t.out.notes)})
\* descriptions: out.desc is a list of <<name, has a description>>
JudgeDesc(t) == UNION {Clause(t.out.desc[k][2] = Known(t.out.desc[k][1]), "description of " \o t.out.desc[k][1]) : k \in 1..Len(t.out.desc)}

\* C05: a is the message as it is, b the same with its lines combined
Vals(sec) == {<<sec.parsed[k][1], sec.parsed[k][2]>> : k \in 1..Len(sec.parsed)}
Whole(notes) == LET q == SelectSeq(notes, LAMBDA n : ~StartsWith(n.s, "offset-") /\ n.n \notin {"SINGLE_HEADER_REPEAT", "FIELD_SECTION_TOO_LARGE"}) IN Keys(q)
PerLine(notes) == LET q == SelectSeq(notes, LAMBDA n : StartsWith(n.s, "offset-") /\ n.n \notin (SectionVocab \cup (PlaceVocab \ {"UNNECESSARY_HEADER"}))) IN
                  [k \in 1..Len(q) |-> q[k].k]
AbsentOrder == {}
JudgeC05(t) ==
  LET h == t.in.headers tr == Trailers(t) kind == t.in.kind IN
  Clause(t.in.combined.headers = Combine(h) /\ (HasF(t.in, "trailers") => t.in.combined.trailers = Combine(tr)), "MACHINERY: wrong combination")
  \cup (IF ~(Joinable(Text(h)) /\ Joinable(Text(tr))) THEN {}
        ELSE Clause(Vals(t.out.a.headers) = Vals(t.out.b.headers) /\ Vals(t.out.a.trailers) = Vals(t.out.b.trailers),
                    "combined lines have another value: " \o ToString((Vals(t.out.a.headers) \cup Vals(t.out.a.trailers)) \ (Vals(t.out.b.headers) \cup Vals(t.out.b.trailers))))
             \cup {"whole-field notes: " \o x : x \in BagDiff(Whole(t.out.a.notes), Whole(t.out.b.notes))}
             \cup {"line notes: " \o x : x \in BagDiff(PerLine(t.out.a.notes), PerLine(t.out.b.notes))})
  \cup NotesDiff(t.out.a.notes, {"SINGLE_HEADER_REPEAT"}, RepeatNotes(h, kind) \o RepeatNotes(tr, kind))
  \cup UNION {IF Present(h, n) /\ ~Misplaced(n, kind) /\ ~\E k \in 1..Len(h) : Lower(AsciiOnly(h[k][1])) = n /\ Lower(h[k][1]) # n
              THEN Clause(ParsedIn(t.out.a.headers, n) = PlainParsed(h, n), n \o " is " \o ParsedIn(t.out.a.headers, n) \o " not " \o PlainParsed(h, n)) ELSE {}
              : n \in AsIs \cup Lowered}
=============================================================================
