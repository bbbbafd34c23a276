--------------------------- MODULE CacheControl ---------------------------
(***************************************************************************)
(* Cache-Control: parsing of directives and what is said about them.       *)
(***************************************************************************)
EXTENDS Fields

IntDirs  == {"max-age", "max-stale", "min-fresh", "s-maxage", "stale-if-error",
             "stale-while-revalidate", "pre-check", "post-check"}
TextDirs == {"no-cache", "private"}
FlagDirs == {"immutable", "must-revalidate", "must-understand", "no-store", "no-transform",
             "only-if-cached", "proxy-revalidate", "public"}
KnownDirs == IntDirs \cup TextDirs \cup FlagDirs
\* directives without meaning in one kind of message
ResponseOnly == {"immutable", "must-revalidate", "must-understand", "private", "proxy-revalidate", "public",
                 "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}
RequestOnly  == {"max-stale", "min-fresh", "only-if-cached"}

\* which directives override which (most significant first; only the first is reported)
Overrides == <<
  <<"no-store", {"immutable", "max-age", "must-revalidate", "no-cache", "private", "proxy-revalidate", "public",
                 "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}>>,
  <<"no-cache", {"immutable", "max-age", "must-revalidate", "proxy-revalidate", "s-maxage", "stale-if-error",
                 "stale-while-revalidate", "pre-check", "post-check"}>>,
  <<"must-revalidate", {"immutable", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}>> >>

CcElement == S(<<Token, Opt(S(<<L("="), A(<<Token, QuotedString>>)>>))>>)

\* one member
CcParse(e) ==
  LET has == Has(e, "=")
      raw == IF has THEN Before(e, "=") ELSE e
      name == Lower(raw)
      val == After(e, "=")
      ir == IF has THEN IntRec(val) ELSE [ok |-> FALSE, neg |-> FALSE, d |-> "0"]
      isInt == name \in IntDirs
  IN [name |-> name,
      miscap |-> name # raw,
      flagval |-> name \in FlagDirs /\ has,
      badval |-> isInt /\ ~ir.ok,
      toobig |-> isInt /\ ir.ok /\ ~ir.neg /\ NumLess("2147483648", ir.d),
      keep |-> ~(isInt /\ ~ir.ok),
      int |-> isInt,
      r |-> ir,
      has |-> has,
      txt |-> IF name \in TextDirs THEN Unquote(val) ELSE val]

CcMembers(ls) == LET m == Members(ls, "cache-control") IN
                 [k \in 1..Len(m) |-> [off |-> m[k][1], p |-> CcParse(m[k][2])]]
\* the directives that take effect, in order
CcKept(ls) == LET m == CcMembers(ls) IN SelectSeq(m, LAMBDA x : x.p.keep)
CcNames(ls) == LET q == CcKept(ls) IN {q[k].p.name : k \in 1..Len(q)}
\* the last occurrence of a directive decides its value
CcLast(ls, d) == LET q == CcKept(ls) IN
                 q[CHOOSE k \in 1..Len(q) : q[k].p.name = d /\ \A j \in (k + 1)..Len(q) : q[j].p.name # d].p

CcParsed(ls) == LET q == CcKept(ls) IN "[" \o Join(
  [k \in 1..Len(q) |-> "(s" \o q[k].p.name \o "," \o
     (IF q[k].p.int THEN IntText(q[k].p.r)
      ELSE IF q[k].p.has THEN "s" \o q[k].p.txt
      ELSE IF q[k].p.name \in TextDirs THEN "None"
      ELSE "None") \o ")"], ",") \o "]"

CcVocab == {"CC_MISCAP", "CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE",
            "CC_CONFLICTING", "CC_WRONG_MESSAGE", "CC_DUP", "CHECK_SINGLE", "CHECK_ALL_ZERO",
            "CHECK_POST_BIGGER", "CHECK_POST_ZERO", "CHECK_POST_PRE"}

CcMemberNotes(ls) == LET m == CcMembers(ls) IN
  Cat([k \in 1..Len(m) |-> LET p == m[k].p o == Off(m[k].off) IN
        One(p.miscap, NoteKey("CC_MISCAP(" \o p.name \o ")", o))
     \o One(p.flagval, NoteKey("CC_SHOULD_NOT_HAVE_VALUE(" \o p.name \o ")", o))
     \o One(p.badval, NoteKey("CC_BAD_VALUE_TYPE(" \o p.name \o ")", o))
     \o One(p.toobig, NoteKey("CC_MAX_AGE_TOO_LARGE(" \o p.name \o ")", o))])

CcF == "field-cache-control"
\* the directives there are, in order, once each
CcOrder(ls) == LET q == CcKept(ls) keep == {k \in 1..Len(q) : \A j \in 1..k - 1 : q[j].p.name # q[k].p.name} IN
               Cat([k \in 1..Len(q) |-> IF k \in keep THEN <<q[k].p.name>> ELSE <<>>])
RECURSIVE FirstOverride(_, _, _)
FirstOverride(order, names, k) ==
  IF k > Len(Overrides) THEN <<>>
  ELSE IF Overrides[k][1] \in names /\ names \cap Overrides[k][2] # {}
       THEN <<NoteKey("CC_CONFLICTING(" \o Overrides[k][1] \o "," \o Join(SelectSeq(order, LAMBDA x : x \in Overrides[k][2]), " ") \o ")", CcF)>>
       ELSE FirstOverride(order, names, k + 1)

RECURSIVE SeqOf(_)
SeqOf(set) == IF set = {} THEN <<>> ELSE LET x == CHOOSE x \in set : TRUE IN <<x>> \o SeqOf(set \ {x})

CcWholeNotes(ls, kind) ==
  LET names == CcNames(ls)
      kept == CcKept(ls)
      cnt(d) == Cardinality({k \in 1..Len(kept) : kept[k].p.name = d})
      wrong == IF kind = "request" THEN names \cap ResponseOnly ELSE names \cap RequestOnly
      dup == {d \in (names \cap KnownDirs) \ wrong : cnt(d) > 1}
      pre == "pre-check" \in names
      post == "post-check" \in names
      a == CcLast(ls, "pre-check").r
      b == CcLast(ls, "post-check").r
  IN If(kind = "response", FirstOverride(CcOrder(ls), names, 1))
     \o (LET q == SeqOf(wrong) IN [k \in 1..Len(q) |-> NoteKey("CC_WRONG_MESSAGE(" \o q[k] \o "," \o (IF kind = "request" THEN "response" ELSE "request") \o ")", CcF)])
     \o (LET q == SeqOf(dup) IN [k \in 1..Len(q) |-> NoteKey("CC_DUP(" \o q[k] \o ")", CcF)])
     \o (IF pre \/ post THEN
           IF ~(pre /\ post) THEN <<NoteKey("CHECK_SINGLE", CcF)>>
           ELSE IF a.d = "0" /\ b.d = "0" THEN <<NoteKey("CHECK_ALL_ZERO", CcF)>>
           ELSE IF (~b.neg /\ (a.neg \/ NumLess(a.d, b.d))) \/ (b.neg /\ a.neg /\ NumLess(b.d, a.d))
                THEN <<NoteKey("CHECK_POST_BIGGER", CcF)>>
           ELSE IF b.d = "0" THEN <<NoteKey("CHECK_POST_ZERO", CcF)>>
           ELSE <<NoteKey("CHECK_POST_PRE", CcF)>>
         ELSE <<>>)

CcNotes(ls, kind) == IF Members(ls, "cache-control") = <<>> THEN <<>>
                     ELSE CcMemberNotes(ls) \o CcWholeNotes(ls, kind)
=============================================================================
