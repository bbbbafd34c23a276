------------------------------ MODULE Locale ------------------------------
(***************************************************************************)
(* The locale that text is produced in.  Every context of execution has a  *)
(* stack of the scopes it is inside of.  A thread starts with none; a task *)
(* (or a thread that is given a copy of its maker's context) starts with   *)
(* the locale its maker has at that moment.  A scope ends for the context  *)
(* that entered it, and takes its inner scopes with it when it ends by an  *)
(* exception.                                                              *)
(***************************************************************************)
EXTENDS Text
Default == "en"
Ctx(base) == [base |-> base, scopes |-> <<>>]
Current(c) == IF c.scopes = <<>> THEN c.base ELSE c.scopes[Len(c.scopes)]
Root == <<Ctx(Default)>>
\* operations: op, c (who does it), loc, n (scopes left by an exception), kind (of context made)
Copies == {"task", "copy", "worker"}        \* these inherit; a "thread" doesn't
Can(cs, o) == /\ o.c \in 1..Len(cs)
              /\ CASE o.op = "enter" -> TRUE
                   [] o.op = "exit" -> Len(cs[o.c].scopes) > 0
                   [] o.op = "raise" -> o.n \in 1..Len(cs[o.c].scopes)
                   [] o.op = "spawn" -> o.kind \in Copies \cup {"thread"}
                   [] o.op = "make" -> TRUE
                   [] OTHER -> FALSE
Named1(loc) == IF loc = "" THEN Default ELSE loc
Do(cs, o) ==
  CASE o.op = "enter" -> [cs EXCEPT ![o.c].scopes = Append(@, Named1(o.loc))]
    [] o.op = "exit" -> [cs EXCEPT ![o.c].scopes = SubSeq(@, 1, Len(@) - 1)]
    [] o.op = "raise" -> [cs EXCEPT ![o.c].scopes = SubSeq(@, 1, Len(@) - o.n)]
    [] o.op = "spawn" -> Append(cs, Ctx(IF o.kind = "thread" THEN Default ELSE Current(cs[o.c])))
    [] OTHER -> cs
RECURSIVE Played(_, _)
Played(ops, cs) == IF ops = <<>> THEN cs ELSE Played(Tail(ops), Do(cs, ops[1]))
RECURSIVE AllCan(_, _)
AllCan(ops, cs) == ops = <<>> \/ (Can(cs, ops[1]) /\ AllCan(Tail(ops), Do(cs, ops[1])))

\* ---- the language of a locale's texts ------------------------------------
Translated == {"es", "fr", "ja", "zh"}
\* language[_territory][.codeset][@modifier]
LanguageOf(loc) == Before(Before(Before(loc, "@"), "."), "_")
Lang(loc) == IF LanguageOf(loc) \in Translated THEN LanguageOf(loc) ELSE Default
=============================================================================
