-------------------------------- MODULE Burg --------------------------------
(* The generator of tree matchers: lburg.  A behaviour reads a tree grammar line by line, judges it, and then labels trees
   node by node, children first.  What the real generator answered, and what the matcher it generated recorded for every
   node, must be a behaviour of this machine.
     ph "line"  the next line of the grammar is read (each one is a sequence of tokens)
     ph "rule"  the tables of the matcher are compared
     ph "node"  the next node of the current tree is labelled
     ph "end"                                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, step, m
vars == <<cid, step, m>>
C == Cases[cid]
INF == 32767

(* The grammar so far.  syms: symbol -> [k |-> "t", esn, ar] or [k |-> "n", no]; rules: <<[lhs, pat, tm, cost]>>;
   a pattern is [op, kids].                                                                                              *)
Start == [ph |-> "line", i |-> 1, sec |-> 1, syms |-> <<>>, nts |-> <<>>, rules |-> <<>>, verdict |-> "", out |-> "", lo |-> 0,
          tr |-> 1, nd |-> 1, lab |-> <<>>]
Has(g, x) == x \in DOMAIN g.syms
Bind(g, x, v) == [g EXCEPT !.syms = [y \in DOMAIN g.syms \cup {x} |-> IF y = x THEN v ELSE g.syms[y]]]
IsT(g, x) == Has(g, x) /\ g.syms[x].k = "t"
IsN(g, x) == Has(g, x) /\ g.syms[x].k = "n"
AddNt(g, x) == IF Has(g, x) THEN g ELSE [Bind(g, x, [k |-> "n", no |-> Len(g.nts) + 1, esn |-> 0, ar |-> 0]) EXCEPT !.nts = Append(@, x)]
Bad(g) == [g EXCEPT !.out = "bad"]

K(l, p) == IF p <= Len(l) THEN l[p].k ELSE "end"
\* ---- declarations: %term name = number ... and %start name
RECURSIVE TermList(_, _, _)
TermList(g, l, p) ==
  IF K(l, p) = "end" THEN g
  ELSE IF K(l, p) # "id" \/ K(l, p + 1) # "=" \/ K(l, p + 2) # "int" THEN Bad(g)
  ELSE IF Has(g, l[p].s) \/ \E x \in DOMAIN g.syms : g.syms[x].k = "t" /\ g.syms[x].esn = l[p + 2].n THEN Bad(g)
  ELSE TermList(Bind(g, l[p].s, [k |-> "t", no |-> 0, esn |-> l[p + 2].n, ar |-> -1]), l, p + 3)
Decl(g, l) ==
  CASE K(l, 1) = "end" -> g
    [] K(l, 1) = "%term" -> TermList(g, l, 2)
    [] K(l, 1) = "%start" ->
         (IF Len(l) # 2 \/ K(l, 2) # "id" \/ IsT(g, l[2].s) THEN Bad(g)
          ELSE \* the first one named is the start symbol: another name comes too late
               LET h == AddNt(g, l[2].s) IN IF h.syms[l[2].s].no = 1 THEN h ELSE Bad(g))
    [] OTHER -> Bad(g)
\* ---- rules: nonterminal : tree template cost
RECURSIVE TreeAt(_, _, _)
None == [op |-> "", kids |-> <<>>]
Node(g, x, kids) ==        \* the symbol of a node, its arity
  LET n == Len(kids) IN
  IF ~Has(g, x) THEN IF n > 0 THEN Bad(g) ELSE AddNt(g, x)
  ELSE IF IsN(g, x) THEN IF n > 0 THEN Bad(g) ELSE g
  ELSE IF g.syms[x].ar = -1 THEN [g EXCEPT !.syms[x].ar = n]
  ELSE IF g.syms[x].ar = n THEN g ELSE Bad(g)
TreeAt(g, l, p) ==
  IF K(l, p) # "id" THEN [g |-> Bad(g), p |-> p, t |-> None]
  ELSE IF K(l, p + 1) # "(" THEN [g |-> Node(g, l[p].s, <<>>), p |-> p + 1, t |-> [op |-> l[p].s, kids |-> <<>>]]
  ELSE LET a == CHOOSE a \in {TreeAt(g, l, p + 2)} : TRUE IN
       IF a.g.out # "" THEN [g |-> a.g, p |-> p, t |-> None]
       ELSE IF K(l, a.p) = ")" THEN [g |-> Node(a.g, l[p].s, <<a.t>>), p |-> a.p + 1, t |-> [op |-> l[p].s, kids |-> <<a.t>>]]
       ELSE IF K(l, a.p) # "," THEN [g |-> Bad(a.g), p |-> p, t |-> None]
       ELSE LET b == CHOOSE b \in {TreeAt(a.g, l, a.p + 1)} : TRUE IN
            IF b.g.out # "" \/ K(l, b.p) # ")" THEN [g |-> Bad(b.g), p |-> p, t |-> None]
            ELSE [g |-> Node(b.g, l[p].s, <<a.t, b.t>>), p |-> b.p + 1, t |-> [op |-> l[p].s, kids |-> <<a.t, b.t>>]]
Rule(g, l) ==
  IF K(l, 1) = "end" THEN g
  ELSE IF K(l, 1) # "id" \/ K(l, 2) # ":" \/ IsT(g, l[1].s) THEN Bad(g)
  ELSE LET r == CHOOSE r \in {TreeAt(AddNt(g, l[1].s), l, 3)} : TRUE IN
       IF r.g.out # "" THEN r.g
       ELSE IF K(l, r.p) # "tmpl" \/ K(l, r.p + 1) # "cost" THEN Bad(r.g)
       ELSE IF IsN(r.g, r.t.op) /\ l[r.p + 1].s # "c" THEN Bad(r.g)       \* the cost of a chain rule is a constant
       ELSE [r.g EXCEPT !.rules = Append(@, [lhs |-> l[1].s, pat |-> r.t, tm |-> l[r.p].s, cost |-> l[r.p + 1]])]
Line(g, l) ==
  IF \E p \in 1..Len(l) : l[p].k \in {"bad", "big", "open"} THEN Bad(g)
  ELSE IF K(l, 1) = "%%" THEN [g EXCEPT !.sec = 2]
  ELSE IF g.sec = 1 THEN Decl(g, l) ELSE Rule(g, l)

RECURSIVE Leaves(_, _)      \* the nonterminals of a pattern, from left to right
Leaves(g, t) == IF IsN(g, t.op) THEN <<t.op>>
                ELSE IF Len(t.kids) = 0 THEN <<>> ELSE IF Len(t.kids) = 1 THEN Leaves(g, t.kids[1]) ELSE Leaves(g, t.kids[1]) \o Leaves(g, t.kids[2])
RECURSIVE Show(_)
Show(t) == IF Len(t.kids) = 0 THEN t.op ELSE IF Len(t.kids) = 1 THEN t.op \o "(" \o Show(t.kids[1]) \o ")"
           ELSE t.op \o "(" \o Show(t.kids[1]) \o "," \o Show(t.kids[2]) \o ")"
Uses(g, x) == UNION {ToSet(Leaves(g, g.rules[r].pat)) : r \in {r \in 1..Len(g.rules) : g.rules[r].lhs = x}}
Reach(g) == FoldLeft(LAMBDA s, j : s \cup UNION {Uses(g, x) : x \in s}, {g.nts[1]}, [j \in 1..Len(g.nts) |-> j])
\* every nonterminal has a rule and can be reached from the start
Whole(g) == LET all == ToSet(g.nts) IN {g.rules[r].lhs : r \in 1..Len(g.rules)} = all /\ Reach(g) = all

\* ---- the matcher's tables
IsInstr(s) == Len(s) >= 2 /\ SubSeq(s, Len(s) - 1, Len(s)) = "\\n"
TablesOk(g, o) ==
  /\ o.nt = g.nts
  /\ Len(o.rules) = Len(g.rules)
  /\ \A k \in 1..3 : o.counts[k] = Len(g.rules)
  /\ \A r \in 1..Len(g.rules) :
       LET u == g.rules[r]  v == o.rules[r] IN
       /\ v.nts = [j \in 1..Len(Leaves(g, u.pat)) |-> g.syms[Leaves(g, u.pat)[j]].no]
       /\ v.tm = u.tm
       /\ v.ins = (IF IsInstr(u.tm) THEN 1 ELSE 0)
       /\ v.s = u.lhs \o ": " \o Show(u.pat)
\* null trees, unknown operators, nonterminals and rules are fatal; no rule is recorded in no state
FatalOk(o) == o.fatal = <<1, 1, 1, 1, 1, 1, 1, 1, 0>>

\* ---- labelling.  lab: per node of the tree its least costs, by nonterminal
N(g) == Len(g.nts)
Chain(g, r) == IsN(g, g.rules[r].pat.op)
RECURSIVE Kids(_, _, _, _)          \* the nodes under the nonterminals of a pattern; <<-1>> in front if the node does not match
Kids(g, tr, t, n) ==
  IF IsN(g, t.op) THEN <<n>>
  ELSE IF n = 0 THEN <<-1>>
  ELSE IF tr[n][1] # g.syms[t.op].esn THEN <<-1>>
  ELSE IF Len(t.kids) = 0 THEN <<>>
  ELSE LET a == CHOOSE a \in {Kids(g, tr, t.kids[1], tr[n][3])} : TRUE IN
       IF Len(t.kids) = 1 \/ (Len(a) > 0 /\ a[1] = -1) THEN a
       ELSE LET b == CHOOSE b \in {Kids(g, tr, t.kids[2], tr[n][4])} : TRUE IN
            IF Len(b) > 0 /\ b[1] = -1 THEN b ELSE a \o b
Own(c, v) == CASE c.s = "c" -> c.n [] c.s = "v" -> v + c.n [] OTHER -> IF v > c.lim THEN INF ELSE c.n
Least(a, b) == IF a < b THEN a ELSE b
\* the matching base rules of node n: the kids and the cost of each
Matches(g, tr, lab, n) ==
  [r \in {r \in 1..Len(g.rules) : ~Chain(g, r) /\ tr[n][1] = g.syms[g.rules[r].pat.op].esn} |->
     LET ks == CHOOSE ks \in {Kids(g, tr, g.rules[r].pat, n)} : TRUE  ls == Leaves(g, g.rules[r].pat) IN
     IF Len(ks) > 0 /\ ks[1] = -1 THEN [ks |-> ks, c |-> -1]
     ELSE [ks |-> ks, c |-> FoldLeft(LAMBDA s, j : s + lab[ks[j]][g.syms[ls[j]].no], Own(g.rules[r].cost, tr[n][2]), [j \in 1..Len(ks) |-> j])]]
\* the least cost of each nonterminal: over the base rules, then closed under the chain rules
Costs(g, ms) ==
  LET base == TLCEval([x \in 1..N(g) |-> FoldLeft(LAMBDA b, r : IF r \in DOMAIN ms /\ g.rules[r].lhs = g.nts[x] /\ ms[r].c >= 0 THEN Least(b, ms[r].c) ELSE b,
                                                  INF, [r \in 1..Len(g.rules) |-> r])])
      chains == SelectSeq([r \in 1..Len(g.rules) |-> r], LAMBDA r : Chain(g, r))
      relax(f) == FoldLeft(LAMBDA h, r : LET x == g.syms[g.rules[r].lhs].no  c == h[g.syms[g.rules[r].pat.op].no] + g.rules[r].cost.n
                                         IN IF c < h[x] THEN [h EXCEPT ![x] = c] ELSE h, f, chains)
  IN FoldLeft(LAMBDA f, j : relax(f), base, [j \in 1..N(g) |-> j])
\* the chain rules recorded lead from x to a base rule
Grounded(g, o, x) == FoldLeft(LAMBDA y, j : IF y = 0 THEN 0 ELSE IF Chain(g, o.r[y]) THEN g.syms[g.rules[o.r[y]].pat.op].no ELSE 0, x, [j \in 1..N(g) |-> j]) = 0
\* what the matcher recorded for the node: its costs are the least, its rules achieve them
NodeWrong(g, ms, cs, o, n) ==
  LET ok(r) == r \in 1..Len(g.rules) IN
  CASE o.c # cs -> "cost"
    [] \E x \in 1..N(g) : IF cs[x] = INF THEN o.r[x] # 0 ELSE ~ok(o.r[x]) -> "no rule"
    [] \E x \in 1..N(g) : cs[x] < INF /\ g.rules[o.r[x]].lhs # g.nts[x] -> "another nonterminal's rule"
    [] \E x \in 1..N(g) : cs[x] < INF /\
         (IF Chain(g, o.r[x]) THEN cs[x] # cs[g.syms[g.rules[o.r[x]].pat.op].no] + g.rules[o.r[x]].cost.n
          ELSE o.r[x] \notin DOMAIN ms \/ cs[x] # ms[o.r[x]].c) -> "the rule does not have the cost"
    [] \E x \in 1..N(g) : cs[x] < INF /\ ~Grounded(g, o, x) -> "no derivation"
    [] \E x \in 1..N(g) : cs[x] < INF /\ ~Chain(g, o.r[x]) /\ o.k[x] # ms[o.r[x]].ks -> "kids"
    [] \E x \in 1..N(g) : cs[x] < INF /\ Chain(g, o.r[x]) /\ o.k[x] # <<n>> -> "kids of a chain rule"
    [] OTHER -> ""
\* the trace: each matching base rule once, chain rules with the cost at that time, all with the best cost so far
TraceWrong(g, ms, cs, o) ==
  LET m0 == [best |-> [x \in 1..N(g) |-> INF], seen |-> <<>>, bad |-> ""]
      one(s, e) ==
        LET r == e[1] IN
        IF s.bad # "" THEN s
        ELSE IF r \notin 1..Len(g.rules) THEN [s EXCEPT !.bad = "unknown rule traced"]
        ELSE LET x == g.syms[g.rules[r].lhs].no
                 want == IF Chain(g, r) THEN s.best[g.syms[g.rules[r].pat.op].no] + g.rules[r].cost.n ELSE IF r \in DOMAIN ms THEN ms[r].c ELSE -1
             IN IF e[2] # want THEN [s EXCEPT !.bad = "cost traced"]
                ELSE IF e[3] # s.best[x] THEN [s EXCEPT !.bad = "best cost traced"]
                ELSE [s EXCEPT !.best[x] = Least(@, e[2]), !.seen = IF Chain(g, r) THEN @ ELSE Append(@, r)]
      z == FoldLeft(one, m0, o.t)
      due == {r \in DOMAIN ms : ms[r].c >= 0}
  IN IF z.bad # "" THEN z.bad
     ELSE IF Len(z.seen) # Cardinality(due) \/ ToSet(z.seen) # due THEN "base rules traced"
     ELSE IF z.best # cs THEN "costs reached in the trace"
     ELSE ""

\* ---- the behaviour
Fin(s, v) == [s EXCEPT !.ph = "end", !.verdict = IF v = "" THEN "agrees" ELSE v]
Judge(s) ==     \* the generator's answer to the grammar
  IF C.crash # "" THEN "crash"
  ELSE IF C.cmd = "bad" THEN IF C.rc = 0 \/ C.errs = 0 THEN "bad command line accepted" ELSE ""
  ELSE IF s.out = "free" THEN ""
  ELSE IF s.out = "valid" THEN IF C.rc # 0 \/ C.errs # 0 THEN "valid grammar rejected" ELSE ""
  ELSE IF C.rc = 0 THEN "malformed grammar accepted"
  ELSE IF C.errs = 0 THEN "rejected without a diagnostic"
  ELSE IF s.lo > 0 /\ C.first # s.lo THEN "wrong line" ELSE ""
End(s) == Fin(s, Judge(s))
AtEnd(s) ==
  IF C.cmd = "bad" THEN End([s EXCEPT !.out = "command"])
  ELSE IF s.rules = <<>> THEN End([s EXCEPT !.out = "free"])
  ELSE IF ~Whole(s) THEN End([s EXCEPT !.out = "invalid"])
  ELSE LET h == [s EXCEPT !.out = "valid"] IN
       IF Judge(h) # "" \/ ~C.run THEN End(h) ELSE [h EXCEPT !.ph = "rule"]
ReadLine(s) ==
  LET g == CHOOSE g \in {Line(s, C.lines[s.i])} : TRUE IN
  IF g.out # "" THEN End([s EXCEPT !.out = "invalid", !.lo = s.i]) ELSE [g EXCEPT !.i = s.i + 1]
Label(s) ==
  LET tr == C.trees[s.tr]  o == C.got.trees[s.tr][s.nd]
      ms == CHOOSE x \in {Matches(s, tr, s.lab, s.nd)} : TRUE
      cs == CHOOSE x \in {Costs(s, ms)} : TRUE
      w  == CHOOSE x \in {NodeWrong(s, ms, cs, o, s.nd)} : TRUE
      v  == IF w # "" \/ ~C.traced THEN w ELSE TraceWrong(s, ms, cs, o)
  IN IF v # "" THEN Fin(s, v)
     ELSE IF s.nd < Len(tr) THEN [s EXCEPT !.nd = @ + 1, !.lab = Append(@, cs)]
     ELSE IF s.tr < Len(C.trees) THEN [s EXCEPT !.tr = @ + 1, !.nd = 1, !.lab = <<>>]
     ELSE Fin([s EXCEPT !.out = "labelled"], "")
Step(s) ==
  CASE s.ph = "line" -> (IF s.i > Len(C.lines) THEN AtEnd(s) ELSE ReadLine(s))
    [] s.ph = "rule" -> (IF ~TablesOk(s, C.got) THEN Fin(s, "tables") ELSE IF ~FatalOk(C.got) THEN Fin(s, "fatal errors")
                         ELSE IF Len(C.got.trees) # Len(C.trees) \/ \E t \in 1..Len(C.trees) : Len(C.got.trees[t]) # Len(C.trees[t]) THEN Fin(s, "trees")
                         ELSE [s EXCEPT !.ph = "node"])
    [] s.ph = "node" -> Label(s)
Init == cid \in 1..Len(Cases) /\ step = 0 /\ m = Start
Next == \/ /\ m.ph # "end" /\ cid' = cid /\ step' = step + 1
           /\ \E r \in {Step(m)} : m' = r
           /\ (m'.ph = "end") =>
                IF m'.verdict # "agrees" THEN PrintT(<<"reject", cid, step, m'.verdict, m'.out, m'.lo, m'.tr, m'.nd>>) /\ TLCSet("exit", TRUE)
                ELSE PrintT(<<m'.out, cid, step>>)
        \/ m.ph = "end" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
View == <<cid, step>>
Conforms == m.verdict \in {"", "agrees"}
\* symbols are numbered without gaps, and no cost ever exceeds the one of no match
Sane == /\ {m.syms[x].no : x \in {x \in DOMAIN m.syms : m.syms[x].k = "n"}} = 1..Len(m.nts)
        /\ \A n \in 1..Len(m.lab) : \A x \in 1..Len(m.nts) : m.lab[n][x] \in 0..INF
Shown == [case |-> cid, name |-> C.name, verdict |-> m.verdict, out |-> m.out, lo |-> m.lo, tr |-> m.tr, nd |-> m.nd]
=============================================================================
