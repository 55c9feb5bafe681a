------------------------------- MODULE VMProf -------------------------------
(* Debug symbols, profile and execution trace of a debug build, on top of   *)
(* the machine and the host histories of VMConf.                            *)
(*                                                                          *)
(* History variables follow the execution: which function each activation   *)
(* is in, how many instructions every function of every machine has         *)
(* executed since its last report.  The map file is read by the             *)
(* specification itself.  A case carries the files around the image         *)
(* (C.files: path, bytes, wild), the module paths (C.mods), and the trace   *)
(* lines of the debug output (C.tr: kind, number of interface events before *)
(* it, ...).                                                                *)
EXTENDS VMConf

VARIABLES pv
pvars == <<vars, pv>>

LINE == 16  TOTAL == 17  REPORTED == 19
T_OP == 20  T_ENTER == 21  T_LEAVE == 22  T_SYS == 23

------------------------------ (* map files *) ------------------------------
\* The path of the map: the module's path with its extension, if it has one,
\* replaced by .map
Slash == 47  Dot == 46
LastIdx(s, S) == FoldLeft(LAMBDA a, k : IF s[k] \in S THEN k ELSE a, 0, [k \in 1..Len(s) |-> k])
MapPath(p) ==
  LET d == LastIdx(p, {Dot}) IN
  (IF d > LastIdx(p, {Slash}) THEN SubSeq(p, 1, d - 1) ELSE p) \o <<46, 109, 97, 112>>

\* Tokens: separated by white space; comments of both kinds are white space; a
\* quoted string is one token.  The scanner is a fold over the characters.
\* m: "s" space, "w" word, "q" quoted, "l" line comment, "c" block comment
At(t, k) == IF k <= Len(t) THEN t[k] ELSE 0
White(c) == c <= 32
Scan(t) ==
  LET Go(a, k) ==
        LET c == t[k]
            start == IF White(c) THEN [a EXCEPT !.m = "s"]
                     ELSE IF c = 47 /\ At(t, k + 1) = 47 THEN [a EXCEPT !.m = "l", !.skip = 1]
                     ELSE IF c = 47 /\ At(t, k + 1) = 42 THEN [a EXCEPT !.m = "c", !.skip = 1]
                     ELSE IF c = 34 THEN [a EXCEPT !.m = "q", !.tok = <<>>]
                     ELSE [a EXCEPT !.m = "w", !.tok = <<c>>]
        IN IF a.skip > 0 THEN [a EXCEPT !.skip = @ - 1]
           ELSE CASE a.m = "s" -> start
                  [] a.m = "w" -> IF White(c) THEN [a EXCEPT !.m = "s", !.toks = Append(@, a.tok)]
                                  ELSE [a EXCEPT !.tok = Append(@, c)]
                  [] a.m = "q" -> IF c = 34 THEN [a EXCEPT !.m = "s", !.toks = Append(@, a.tok)]
                                  ELSE [a EXCEPT !.tok = Append(@, c)]
                  [] a.m = "l" -> IF c = 10 THEN [a EXCEPT !.m = "s"] ELSE a
                  [] a.m = "c" -> IF c = 42 /\ At(t, k + 1) = 47 THEN [a EXCEPT !.m = "s", !.skip = 1] ELSE a
      e == FoldLeft(Go, [m |-> "s", skip |-> 0, tok |-> <<>>, toks |-> <<>>], [k \in 1..Len(t) |-> k])
  IN IF e.m \in {"w", "q"} THEN Append(e.toks, e.tok) ELSE e.toks

HexDigit(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Hex(s) == FoldLeft(LAMBDA a, c : 16 * a + HexDigit(c), 0, s)

\* Entries: segment, value, name; an incomplete one at the end is dropped.
\* Only the code segment (0) names functions.
Entries(toks) ==
  FoldLeft(LAMBDA a, k : IF 3 * k > Len(toks) \/ Hex(toks[3 * k - 2]) # 0 THEN a
                         ELSE Append(a, [v |-> Hex(toks[3 * k - 1]), n |-> toks[3 * k]]),
           <<>>, [k \in 1..(Len(toks) \div 3) |-> k])
\* Functions: values are instruction numbers; those beyond the module name nothing
Nowhere == 2147483647
Functions(toks, v) ==
  LET es == Entries(toks) IN
  [k \in 1..Len(es) |-> [n |-> es[k].n,
                         at |-> IF es[k].v < Len(v.ip) THEN v.ip[es[k].v + 1] ELSE Nowhere]]
FileAt(p) == {k \in 1..Len(C.files) : C.files[k].p = p}
\* the function position pc belongs to
FunAt(fs, pc) == FoldLeft(LAMBDA a, k : IF fs[k].at <= pc THEN k ELSE a, 1, [k \in 1..Len(fs) |-> k])

NoProf == [fs |-> <<>>, cnt |-> <<>>, total |-> 0, wild |-> FALSE, free |-> FALSE]
\* keep: how many symbols could be allocated (-1: all)
NewProf(i, v, mod, keep) ==
  IF ~Debug THEN NoProf
  ELSE LET S == FileAt(MapPath(IF mod = 0 THEN <<99, 97, 115, 101>> ELSE C.mods[mod])) IN
       IF S = {} THEN NoProf
       ELSE LET k == CHOOSE x \in S : TRUE IN
            IF C.files[k].wild \/ keep # "all" THEN [NoProf EXCEPT !.wild = TRUE]
            ELSE LET fs == Functions(Scan(C.files[k].b), v) IN
                 [NoProf EXCEPT !.fs = TLCEval(fs), !.cnt = TLCEval([x \in 1..Len(fs) |-> 0])]

---------------------------- (* loading, freeing *) -------------------------
DebugMem == 3                \* allocations that belong to no machine
Foreign(e) == Debug /\ Len(e) = 4 /\ e[1] \in {ALLOC, FREE} /\ e[2] = -1 /\ e[3] = DebugMem

SameRun == UNCHANGED <<cid, op, vms, fr, ph, out, bad>>
PCreate ==
  LET i == ph.vm IN
  IF More /\ Foreign(Ev) /\ Ev[1] = ALLOC
  THEN /\ l' = l + 1 /\ own' = [own EXCEPT ![i] = @ + Ev[4]]
       /\ pv' = IF Ev[4] = 0 THEN [pv EXCEPT !.short = "silent"] ELSE pv
       /\ SameRun
  ELSE IF More /\ Foreign(Ev) /\ Ev[4] = 1
  THEN l' = l + 1 /\ own' = [own EXCEPT ![i] = @ - 1] /\ pv' = pv /\ SameRun
  ELSE IF More /\ pv.short = "silent" /\ Ev = <<ERR, E_MALLOC>>
  THEN l' = l + 1 /\ own' = own /\ pv' = [pv EXCEPT !.short = "told"] /\ SameRun
  ELSE /\ CreateStep
       /\ pv' = IF More /\ Ev[1] = CREATED
                THEN [pv EXCEPT !.short = "all", !.ok = @ /\ pv.short # "silent",
                                !.m[i] = IF ~vms'[i].ok THEN NoProf
                                         ELSE NewProf(i, vms'[i], IF ph.f = <<>> THEN Ops[op][5] ELSE 0, pv.short),
                                !.cur = SubSeq(@, 1, Len(fr'))]
                ELSE pv
PFree ==
  LET i == ph.vm IN
  IF More /\ Foreign(Ev) /\ Ev[1] = FREE /\ Ev[4] = 1
  THEN l' = l + 1 /\ own' = [own EXCEPT ![i] = @ - 1] /\ pv' = pv /\ SameRun
  ELSE FreeStep /\ pv' = IF vms'[i].ok THEN pv ELSE [pv EXCEPT !.m[i] = NoProf]

----------------------------- (* execution *) -------------------------------
\* pos: position in the code; in a debug build every instruction that is
\* fetched by a legal machine counts for the function the activation is in:
\* entered by ENTER, left by LEAVE (so an ENTER counts for the caller)
SymText(p, pc) ==
  LET k == FunAt(p.fs, pc)  d == pc - p.fs[k].at
      Digits(n) == IF n < 10 THEN <<n + 48>>
                   ELSE IF n < 100 THEN <<(n \div 10) + 48, (n % 10) + 48>>
                   ELSE IF n < 1000 THEN <<(n \div 100) + 48, ((n \div 10) % 10) + 48, (n % 10) + 48>>
                   ELSE <<(n \div 1000) + 48, ((n \div 100) % 10) + 48, ((n \div 10) % 10) + 48, (n % 10) + 48>>
  IN IF d = 0 THEN p.fs[k].n ELSE p.fs[k].n \o <<43>> \o Digits(d)

\* the trace lines due before the effects of the instruction at frame f:
\* <<kind, ofs, text>>; text <<-1>>: any
AnyText == <<-1>>
Lines(f, v, p, exec, opc) ==
  LET Text(pc) == IF p.fs = <<>> \/ pc < 0 THEN AnyText ELSE SymText(p, pc) IN
     (IF pv.lvl >= 1 /\ f.ret THEN <<<<T_LEAVE, f.ofs, Text(f.pc)>>>> ELSE <<>>)
  \o (IF pv.lvl >= 2 /\ exec THEN <<<<T_OP, f.ofs, <<opc>>>>>> ELSE <<>>)
  \o (IF pv.lvl < 1 \/ ~exec THEN <<>>
      ELSE IF opc = 3 THEN <<<<T_ENTER, f.ofs, Text(f.pc)>>>>
      ELSE IF opc = 4 THEN <<<<T_LEAVE, f.ofs, Text(GetRA(v, Mask(v, Add(f.ps, v.code[f.pc + 2]))))>>>>
      ELSE IF opc = 5 /\ Top(f) # POISON /\ Top(f) < 0
      THEN <<<<T_SYS, Dec(f.ofs), <<-1 - Top(f)>>>>>>
      ELSE <<>>)
TrOK(ls) ==
  /\ pv.t + Len(ls) - 1 <= Len(C.tr)
  /\ \A k \in 1..Len(ls) :
       LET e == C.tr[pv.t + k - 1]  x == ls[k] IN
       e.k = x[1] /\ e.pos = l - 1 /\ e.ofs = x[2] /\ (x[3] = AnyText \/ e.s = x[3])

PGuest ==
  /\ GuestStep
  /\ \E i \in {fr[Len(fr)].vm} : \E f \in {fr[Len(fr)]} : \E v \in {Returned(f, vms[i])} :
     LET top == Len(fr)
         p == pv.m[i]
         offEnd == f.pc >= Len(v.code) \/ f.pc + 1 >= v.clen
         opc == IF offEnd THEN 0 ELSE v.code[f.pc + 1]
         unclear == offEnd \/ opc = 0           \* stopped before or after the fetch
         stopped == f.ps <= v.size - StackSize \/ f.ps % 4 # 0
         exec == ~unclear /\ ~stopped
         ls == Lines(f, v, p, exec, opc)
         c == IF top <= Len(pv.cur) THEN pv.cur[top] ELSE 1
         p1 == IF unclear THEN [p EXCEPT !.free = TRUE]
               ELSE IF ~exec THEN p
               ELSE [p EXCEPT !.total = @ + 1,
                              !.cnt = IF p.fs = <<>> THEN @ ELSE [@ EXCEPT ![c] = @ + 1]]
         here == IF exec /\ opc \in {3, 4} /\ Len(fr') = top /\ p.fs # <<>> THEN FunAt(p.fs, fr'[top].pc) ELSE c
     IN IF ~Debug THEN pv' = pv
        ELSE pv' = [pv EXCEPT !.m[i] = p1,
                              !.cur = SubSeq(SubSeq(@, 1, top - 1) \o <<here>>, 1, Len(fr')),
                              !.ok = @ /\ (unclear \/ out' = "unspec" \/ TrOK(ls)),
                              !.t = IF unclear THEN 1 + Cardinality({k \in 1..Len(C.tr) : C.tr[k].pos < l})
                                    ELSE @ + Len(ls)]
PNested ==
  /\ NestedFn
  /\ pv' = IF Len(fr') > Len(fr) THEN [pv EXCEPT !.cur = Append(@, FunAt(pv.m[fr'[Len(fr')].vm].fs, 0))] ELSE pv

------------------------------- (* reports *) -------------------------------
\* how many events from position a on satisfy P (consecutively)
Count(a, P(_)) == LET j == SelectInSeq(SubSeq(Log, a, Len(Log)), LAMBDA e : ~P(e))
                  IN IF j = 0 THEN Len(Log) - a + 1 ELSE j - 1
Percent(n, t) == IF t = 0 THEN 0 ELSE (100 * n) \div t
Times(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
ReportLines(p, i, nm, a, nl, tot, ln) ==
  LET mem == SubSeq(Log, l, a - 1)
      ended == /\ a + nl + 1 <= Len(Log)
               /\ Log[a + nl] = <<TOTAL, tot>> /\ Log[a + nl + 1] = <<REPORTED>>
      rightLines == /\ nl = Len(p.fs)
                    /\ \E want \in {[k \in 1..nl |-> <<p.cnt[k], p.fs[k].n>>]} :
                       \E got \in {[k \in 1..nl |-> <<ln[k][3], SubSeq(ln[k], 4, Len(ln[k]))>>]} :
                       \A k \in 1..nl : Times(want, got[k]) = Times(got, got[k])
      sorted == \A k \in 1..nl - 1 : ln[k][3] <= ln[k + 1][3]
      percents == \A k \in 1..nl : ln[k][2] = Percent(ln[k][3], tot)
  IN IF Times([k \in 1..nm |-> mem[k][1] = ALLOC /\ mem[k][4] = 1], TRUE) # Times([k \in 1..nm |-> mem[k][1] = FREE /\ mem[k][4] = 1], TRUE)
     THEN Fail /\ pv' = pv
     ELSE IF \E k \in 1..nm : mem[k][1] = ALLOC /\ mem[k][4] = 0      \* reported, nothing printed, nothing lost
     THEN Simple(0, a < Len(Log) /\ Log[a] = <<ERR, E_MALLOC>> /\ Log[a + 1] = <<REPORTED>>, nm + 2) /\ pv' = pv
     ELSE /\ Simple(0, /\ ended /\ sorted /\ percents
                       /\ p.free \/ tot = p.total
                       /\ p.wild \/ p.free \/ rightLines, nm + nl + 2)
          /\ pv' = [pv EXCEPT !.m[i] = [p EXCEPT !.total = 0, !.cnt = TLCEval([k \in 1..Len(p.fs) |-> 0]), !.free = FALSE]]
Report(i) ==
  \E p \in {pv.m[i]} :
  LET nothing == ~Debug \/ (p.fs = <<>> /\ ~p.wild) \/ (p.wild /\ Ev[1] = REPORTED)
  IN IF ~More THEN Fail /\ pv' = pv
     ELSE IF nothing THEN Simple(0, Ev = <<REPORTED>>, 1) /\ pv' = pv
     ELSE \E nm \in {Count(l, LAMBDA e : Foreign(e))} :
          \E nl \in {Count(l + nm, LAMBDA e : e[1] = LINE)} :
          \E ln \in {SubSeq(Log, l + nm, l + nm + nl - 1)} :
          \E tot \in {FoldLeft(LAMBDA s, e : s + e[3], 0, ln)} :
             ReportLines(p, i, nm, l + nm, nl, tot, ln)

PHost ==
  LET o == Ops[op] IN
  CASE o[1] = 11 -> IF o[2] = 0 THEN Simple(0, Expect(<<REPORTED>>), 1) /\ pv' = pv ELSE Report(o[2])
    [] o[1] = 12 -> Simple(0, TRUE, 0) /\ pv' = [pv EXCEPT !.lvl = o[3]]
    [] OTHER -> /\ HostStep
                /\ pv' = IF Len(fr') > Len(fr) THEN [pv EXCEPT !.cur = <<FunAt(pv.m[fr'[1].vm].fs, 0)>>] ELSE pv

PInit == Init /\ pv = [ok |-> TRUE, lvl |-> 0, t |-> 1, cur |-> <<>>, short |-> "all", m |-> [i \in 1..4 |-> NoProf]]
Same == pv' = pv
PStep ==
  IF out = "unspec" THEN UnspecEnd /\ Same
  ELSE IF GiveUp THEN Unspec /\ Same
  ELSE IF ph.k = "create" THEN PCreate
  ELSE IF ph.k = "free" THEN PFree
  ELSE IF ph.k = "nested" THEN PNested
  ELSE IF fr # <<>> THEN PGuest
  ELSE IF op <= Len(Ops) THEN PHost
  ELSE Finish /\ pv' = [pv EXCEPT !.ok = @ /\ (pv.t = Len(C.tr) + 1 \/ ~Debug)]
PNext == \/ /\ out = "done" /\ UNCHANGED pvars
         \/ /\ out # "done" /\ step' = step + 1 /\ PStep
PSpec == PInit /\ [][PNext]_pvars

Traced == pv.ok
\* the specification's own consistency: what is attributed is what ran
Attributed == out = "run" => \A i \in 1..4 :
  pv.m[i].fs # <<>> => FoldLeft(LAMBDA a, b : a + b, 0, pv.m[i].cnt) = pv.m[i].total
PShown == [case |-> cid, id |-> C.id, step |-> step, script |-> op, logpos |-> l,
           expecting |-> IF More THEN Ev ELSE <<>>, bad |-> bad, out |-> out, prof |-> pv,
           trace |-> IF pv.t <= Len(C.tr) THEN C.tr[pv.t] ELSE <<>>]
=============================================================================
