------------------------------- MODULE MC_Api -------------------------------
(***************************************************************************)
(* Design model of the commands (C18) and of the output paths (C14):       *)
(*   "frames"  all the selections of frames of short trajectories          *)
(*   "labels"  all the relabellings of the species                         *)
(*   "paths"   every command with its options on two files: sequences of   *)
(*             two commands                                                *)
(***************************************************************************)
EXTENDS PPApi

CONSTANTS Areas, MaxN

VARIABLES area, w, log
vars == <<area, w, log>>

(***************************************************************************)
(* Worlds                                                                  *)
(***************************************************************************)
Bounds(n) == {<<>>} \cup {<<x, 1>> : x \in (-n)..n} \cup {<<1, 2>>, <<1, 3>>, <<3, 4>>}
Periodic(n, b) == [steps |-> [i \in 1..n |-> i - 1], blk |-> b]

Cmds == {"msd", "vacf", "alpha2", "qst", "qt", "chi4qs", "fkt", "fskt", "sk", "ik", "gr", "ba"}
Sets == {<<"A">>, <<"A", "B">>, <<"A", "B", "C">>, <<"1", "2">>}
TrajOf(sp) == [nd |-> 3, steps |-> <<0, 4>>, blk |-> 1, tn |-> 1, td |-> 1, hn |-> 1, hd |-> 1, nx |-> 0, pu |-> FALSE, T |-> 12,
              fr |-> [f \in 1..2 |-> [p |-> [i \in 1..Len(sp) |-> <<i, 0, 0>>], s |-> sp, m |-> [i \in 1..Len(sp) |-> 1],
                                      r |-> [i \in 1..Len(sp) |-> 1], w |-> [i \in 1..Len(sp) |-> 1], L |-> <<12, 12, 12>>]]]
Filts == <<<<>>, <<Species("A")>>, <<[op |-> "ne", f |-> "species", x |-> "A"]>>, <<[op |-> "gt", f |-> "mass", x |-> 1]>>,
          <<Species("A"), Species("B")>>>>
Exprs == <<"", "species == 'A'", "species != 'A'", "mass > 1", "species == 'A',species == 'B'">>
Default == <<<<"file">>, <<"lit", ".pp.">>, <<"symbol">>, <<"lit", ".">>, <<"tag">>>>
Inv(cmd, flt, expr, total, nopart) ==
    [cmd |-> cmd, a |-> IF total THEN [total |-> TRUE] ELSE <<>>, kd |-> KDefaults(cmd), lr |-> <<FixOne, FixOne>>, rc |-> <<<<>>, <<>>>>,
     files |-> <<"a.xyz", "b.xyz">>,
     g |-> [filter |-> flt, expr |-> expr, nopartial |-> nopart, o |-> [k |-> "none", p |-> 0, q |-> 1], tmpl |-> Default, layout |-> ""]]

Nothing == [n |-> 0]
Init == /\ area \in Areas /\ log = <<>>
        /\ CASE area = "frames" -> \E n \in 1..MaxN, b \in 1..3 : w = [n |-> n, b |-> b]
             [] area = "labels" -> \E s \in Sets \cup {<<"0", "1">>, <<"0", "1", "2">>, <<"1", "2", "3">>, <<"C", "D">>} : w = [s |-> s]
             [] area = "paths" -> \E s \in Sets : w = [s |-> s]
Next == CASE area = "frames" ->
               /\ log = <<>> /\ UNCHANGED <<area, w>>
               /\ \E a, b \in Bounds(w.n), s \in 1..3 : log' = <<[first |-> a, last |-> b, skip |-> s]>>
          [] area = "labels" ->
               /\ Len(log) < 2 /\ UNCHANGED <<area, w>>
               /\ \E l \in {"", "A", "C", "F"} : log' = Append(log, l)
          [] area = "paths" ->
               /\ Len(log) < 2 /\ UNCHANGED <<area, w>>
               /\ \E c \in Cmds, i \in DOMAIN Filts, total, nopart \in BOOLEAN : LET f == Filts[i] IN
                     /\ (total => c \in {"chi4qs", "fkt", "fskt"}) /\ (nopart => f = <<>>)
                     \* the second command has plain options
                     /\ (Len(log) = 1 => ~total /\ ~nopart /\ (MaxN > 1 \/ w.s = <<"A", "B">>))
                     /\ (f # <<>> => \E x \in ToSet(w.s) : x = "A")
                     /\ (Len(f) = 2 => c \in TwoBody /\ Len(w.s) > 1)
                     /\ log' = Append(log, Inv(c, f, Exprs[i], total, nopart))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Frames                                                                  *)
(***************************************************************************)
Fr == area = "frames" /\ log # <<>>
Tr == Periodic(w.n, w.b)
G == log[1]
Sel == SelectedFrames(Tr, G)
Increasing == Fr => \A k \in 1..(Len(Sel) - 1) : Sel[k + 1] = Sel[k] + G.skip
InsideF == Fr => \A k \in 1..Len(Sel) : Sel[k] \in 1..w.n
NoOptions == Fr /\ G.first = <<>> /\ G.last = <<>> => Sel = SelectSeq(Idx(w.n), LAMBDA i : (i - 1) % G.skip = 0)
Blocks == Fr /\ w.b > 1 /\ G.skip = 1 /\ Len(Sel) > 0 =>
    /\ (Sel[1] - 1) % w.b = 0 \/ (G.first # <<>> /\ G.first[1] < 0)
    /\ Sel[Len(Sel)] % w.b = 0 \/ Sel[Len(Sel)] = w.n \/ (G.last # <<>> /\ G.last[1] < 0)
FirstIs == Fr /\ w.b = 1 /\ G.first # <<>> /\ G.first[2] = 1 /\ G.first[1] \in 0..(w.n - 1) /\ G.last = <<>> => Sel[1] = G.first[1] + 1
LastIs == Fr /\ w.b = 1 /\ G.last # <<>> /\ G.last[2] = 1 /\ G.last[1] \in 1..w.n /\ G.first = <<>> /\ G.skip = 1 => Len(Sel) = G.last[1]
\* The two parts of a trajectory make the whole
Split == Fr /\ G.first = <<>> /\ G.last # <<>> /\ G.skip = 1 =>
    Sel \o SelectedFrames(Tr, [G EXCEPT !.first = G.last, !.last = <<>>]) = Idx(w.n)

(***************************************************************************)
(* Labels                                                                  *)
(***************************************************************************)
La == area = "labels" /\ log # <<>>
Relab(s, l) == [i \in 1..Len(s) |-> Relabel(s, l, s[i])]
Injective0 == La => IsInjective(Relab(w.s, log[1]))
Idempotent == La => Relab(Relab(w.s, log[1]), log[1]) = Relab(w.s, log[1])
Layout0 == La /\ log[1] # "" => LayoutOf(Relab(w.s, log[1])) = log[1]
\* the intermediate labels do not matter, for consecutive species from the first
Contiguous == LET k == Rank(w.s[1]) IN k \in {1, 2, 11} /\ \A i \in 1..Len(w.s) : Rank(w.s[i]) = k + i - 1
Through == La /\ Len(log) = 2 /\ Contiguous /\ log[2] # "" => Relab(Relab(w.s, log[1]), log[2]) = Relab(w.s, log[2])

(***************************************************************************)
(* Paths                                                                   *)
(***************************************************************************)
Pa == area = "paths" /\ log # <<>>
JobsOn(e, i) == Jobs(TLCEval(TrajOf(w.s)), TLCEval(e), i)
Parts(e, i) == LET J == TLCEval(JobsOn(e, i))
               IN {<<c, p>> : c \in {<<j, J[j]>> : j \in 1..Len(J)}, p \in {}}
                  \cup UNION {{<<j, k, J[j], J[j].parts[k]>> : k \in 1..Len(J[j].parts)} : j \in 1..Len(J)}
OutOf(e, i) == TLCEval(UNION {{<<i, z[1], z[2], o[1]>> : o \in PartOutputs(z[3], z[4])} : z \in TLCEval(Parts(e, i))})
\* Files of different jobs, parts or inputs have different names
Distinct0 == Pa => LET O == TLCEval(OutOf(log[1], 1) \cup OutOf(log[1], 2))
                   IN \A y, z \in O : y[4] = z[4] => y = z
\* Every job has outputs, those of the total have no tag but that of the filter
SomeOutput == Pa => \A i \in 1..2 : \A z \in Parts(log[1], i) : Cardinality(PartOutputs(z[3], z[4])) =
                     CASE log[1].cmd \in {"fkt", "fskt"} -> 2 [] log[1].cmd = "chi4qs" -> 3 [] OTHER -> 1
\* Different commands, or filters, never write the same file
Private0 == Pa /\ Len(log) = 2 =>
    LET P(e) == {z[4] : z \in OutOf(e, 1)}
    IN /\ (log[1].cmd # log[2].cmd => P(log[1]) \cap P(log[2]) = {})
       /\ (log[1].cmd = log[2].cmd /\ log[1].cmd # "ik" /\ log[1].g.expr # log[2].g.expr => P(log[1]) \cap P(log[2]) = {})
\* The total and the partials, one for each species or pair of them
Number == Pa => LET e == log[1]
                    ns == Len(w.s)
                    J == TLCEval(JobsOn(e, 1))
                    parts == IF ns = 1 \/ e.g.filter # <<>> \/ e.g.nopartial \/ e.cmd = "ik" THEN 0
                             ELSE IF e.cmd \in TwoBody THEN ns * ns ELSE ns
                    n == Cardinality(Parts(e, 1))
                IN n = CASE e.cmd \in {"fkt", "fskt"} -> parts + (IF ns = 1 \/ e.g.filter # <<>> \/ "total" \in DOMAIN e.a THEN 1 ELSE 0)
                         [] e.cmd = "chi4qs" -> IF "total" \in DOMAIN e.a \/ ns = 1 \/ e.g.filter # <<>> THEN 1 ELSE parts
                         [] OTHER -> parts + 1
=============================================================================
