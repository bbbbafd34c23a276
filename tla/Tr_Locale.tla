----------------------------- MODULE Tr_Locale -----------------------------
(* JudgeC17: t.in.ops; t.out.looks: <<after how many ops, context, item, digest of its text>>;
   t.out.table: item -> locale -> digest of the text that a process using only that locale gives.
   JudgeC17Texts: t.out: loc, texts (template by language, variables, what was shown), digests and
   those of the default locale. *)
EXTENDS TraceRun, Locale, Html
RECURSIVE States(_, _, _)
States(ops, k, acc) == IF k > Len(ops) THEN acc ELSE States(ops, k + 1, Append(acc, Do(acc[k], ops[k])))
LookBad(l, st, table) == LET loc == Current(st[l[1] + 1][l[2]]) IN
  IF l[4] = table[l[3]][loc] THEN {}
  ELSE LET as == {x \in DOMAIN table[l[3]] : table[l[3]][x] = l[4]} IN
       {l[3] \o " in locale " \o loc \o (IF as = {} THEN " isn't its text in any" ELSE " is shown as in another")}
JudgeC17(t) == IF ~AllCan(t.in.ops, Root) THEN {"not a history"}
               ELSE LET st == States(t.in.ops, 1, <<Root>>) IN UNION {LookBad(t.out.looks[k], st, t.out.table) : k \in 1..Len(t.out.looks)}
TextBad(x, loc) == Clause(x.shown = Interp(x.tmpl[Lang(loc)], x.vars), x.k \o " isn't the catalogue's text for " \o loc \o ": " \o x.shown)
JudgeC17Texts(t) == UNION {TextBad(t.out.texts[k], t.in.loc) : k \in 1..Len(t.out.texts)}
                    \cup Clause(Lang(t.in.loc) = Default => t.out.digests = t.out.english, "no English in the untranslated locale " \o t.in.loc)
=============================================================================
