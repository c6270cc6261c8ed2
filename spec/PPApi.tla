------------------------------- MODULE PPApi --------------------------------
(***************************************************************************)
(* The commands of the api and of the command line (C18).                  *)
(*                                                                         *)
(* State: a library of trajectory files, lib = [name |-> trajectory], and  *)
(* the file system fs = [tm |-> [name |-> time], f |-> outputs], PPLife.   *)
(*                                                                         *)
(* An invocation e is a command e.cmd with its own options e.a (only those *)
(* which are given by the user), the global options e.g and a list of      *)
(* input files.  For each file it stands for a list of jobs: the total     *)
(* correlation, the partial ones, each with all its parameters.  Lengths   *)
(* are in units of the lattice, times in units of the timestep.            *)
(***************************************************************************)
EXTENDS PPHelp

(***************************************************************************)
(* Default values of the options, as documented by --help                  *)
(***************************************************************************)
TimeArgs(frac, n, func) == [tmax |-> <<-1, 1>>, tfrac |-> frac, ts |-> n, func |-> func]
ApiDefaults(cmd, tr) ==
    LET len(p, q) == Rat(p * tr.hd, q * tr.hn) \* a length, in lattice units
        k == [kgrid |-> <<>>, wt |-> "none", fluct |-> FALSE, wfile |-> ""]
    IN CASE cmd = "msd"    -> TimeArgs(<<3, 4>>, 30, "linear") @@ [fixcm |-> FALSE, nooff |-> FALSE, sigma |-> len(1, 1), rmsd |-> <<-1, 1>>]
         [] cmd = "vacf"   -> TimeArgs(<<1, 10>>, 30, "linear")
         [] cmd \in {"alpha2"} -> TimeArgs(<<3, 4>>, 60, "logx")
         [] cmd \in {"qst", "qt"} -> TimeArgs(<<3, 4>>, 60, "logx") @@ [a |-> len(3, 10)]
         [] cmd = "chi4qs" -> TimeArgs(<<3, 4>>, 60, "logx") @@ [a |-> len(3, 10), total |-> FALSE]
         [] cmd = "fkt"    -> TimeArgs(<<3, 4>>, 60, "logx") @@ [total |-> FALSE, fixcm |-> FALSE, nk |-> 100, ks |-> 1] @@ k
         [] cmd = "fskt"   -> TimeArgs(<<3, 4>>, 60, "logx") @@ [total |-> FALSE, fixcm |-> FALSE, nk |-> 8, ks |-> 1] @@ k
         [] cmd = "sk"     -> [nk |-> 20, ks |-> 30, kmin |-> <<-1, 1>>] @@ k
         [] cmd = "ik"     -> [nk |-> 20, ks |-> 30, kmin |-> <<-1, 1>>, rfile |-> ""] @@ k
         [] cmd = "gr"     -> [dr |-> len(4, 100), rmax |-> <<0, 1>>]
         [] cmd = "ba"     -> [dth |-> 4]
\* Those of the wave-vectors are in units which are not a rational multiple of ours
KDefaults(cmd) ==
    CASE cmd = "fkt"  -> [kmin |-> <<7, 1>>, kmax |-> <<7, 1>>, dk |-> <<1, 10>>]
      [] cmd = "fskt" -> [kmin |-> <<7, 1>>, kmax |-> <<8, 1>>, dk |-> <<1, 10>>]
      [] cmd \in {"sk", "ik"} -> [kmax |-> <<15, 1>>, dk |-> <<1, 10>>]
      [] OTHER -> <<>>
\* e.kd: their values in units of 2 pi / (T h), to be checked; one part in 200 is good
\* enough, as no wave-vector is so close to the edge of a shell
KdOk(kd, cmd, tr) ==
    \A x \in DOMAIN KDefaults(cmd) :
        LET p == KDefaults(cmd)[x]
        IN x \in DOMAIN kd =>
             LET want == FixDiv(FixInt(p[1] * tr.T * tr.hn), p[2] * tr.hd)
                 have == FixMul(Fix(kd[x][1], kd[x][2]), TwoPi)
             IN FixLe(FixScale(FixAbs(FixSub(want, have)), 200), want)
Args(e, tr) == e.a @@ e.kd @@ ApiDefaults(e.cmd, tr)

(***************************************************************************)
(* Frames: --first, --last, --skip.  A bound is <<>> or a number <<p, q>>, *)
(* a fraction of the trajectory if it lies between zero and one.  Blocks   *)
(* of frames are not broken.                                               *)
(***************************************************************************)
Bound(x, n) == IF 0 < x[1] /\ x[1] < x[2] THEN (x[1] * n) \div x[2]
               ELSE IF x[1] < 0 THEN -((-x[1]) \div x[2]) ELSE x[1] \div x[2]
ToBlock(i, blk) == IF blk > 1 THEN (i \div blk) * blk ELSE i
Clip(i, n) == IF i < 0 THEN MaxI(n + i, 0) ELSE MinI(i, n)
SelectedFrames(tr, g) ==
    LET n == NFrames(tr)
        s == IF g.first = <<>> THEN 0 ELSE Clip(ToBlock(Bound(g.first, n), tr.blk), n)
        t == IF g.last = <<>> THEN n ELSE Clip(ToBlock(Bound(g.last, n), tr.blk), n)
    IN SelectSeq(Idx(n), LAMBDA i : s < i /\ i <= t /\ (i - 1 - s) % g.skip = 0)

(***************************************************************************)
(* Species: --species-layout A, C or F.  Labels are single characters.     *)
(***************************************************************************)
Alphabet == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Rank(x) == CHOOSE i \in 1..36 : At(Alphabet, i) = x
Labels(fr) == SortSeq(SetToSeq({fr.s[i] : i \in 1..Len(fr.s)}), LAMBDA x, y : Rank(x) < Rank(y))
LayoutOf(s) == IF \E i \in 1..Len(s) : Rank(s[i]) > 10 THEN "A" ELSE IF s[1] = "0" THEN "C" ELSE "F"
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Relabel(s, layout, x) ==
    LET cur == LayoutOf(s)
        \* zero-based index of the species
        k == IF cur = "A" THEN Index(s, x) - 1 ELSE Rank(x) - 1 - (IF cur = "F" THEN 1 ELSE 0)
    IN IF layout = "" \/ layout = cur THEN x
       ELSE At(Alphabet, CASE layout = "A" -> k + 11 [] layout = "C" -> k + 1 [] layout = "F" -> k + 2)

(***************************************************************************)
(* The trajectory seen by a command                                        *)
(***************************************************************************)
View(lib, e, name) ==
    LET tr == lib[name]
        w == IF "wfile" \in DOMAIN e.a /\ e.a.wfile # "" THEN lib[e.a.wfile]
             ELSE IF "rfile" \in DOMAIN e.a /\ e.a.rfile # "" THEN lib[e.a.rfile] ELSE tr
        I == SelectedFrames(tr, e.g)
        lab == Labels(tr.fr[1])
        \* the frame of the file of the weights, or of the radii, at the same step
        wfr(i) == w.fr[Index(w.steps, tr.steps[i])]
    IN [tr EXCEPT !.steps = [k \in 1..Len(I) |-> tr.steps[I[k]]],
                  !.fr = [k \in 1..Len(I) |->
                     [tr.fr[I[k]] EXCEPT !.r = wfr(I[k]).r,
                                         !.s = [i \in DOMAIN @ |-> Relabel(lab, e.g.layout, @[i])]]]]

(***************************************************************************)
(* Requested times, <<p, q>>.  e.lr: the ratio of the logarithmic grid,    *)
(* the n-th root of the longest time                                       *)
(***************************************************************************)
RatMin(a, b) == IF RatLe(a, b) THEN a ELSE b
Clipped == {"msd", "vacf", "chi4qs"}
LastTime(cmd, a, tr) ==
    LET tot == <<TotalSteps(tr), 1>>
    IN IF a.tmax[1] > 0 THEN (IF cmd \in Clipped THEN RatMin(a.tmax, tot) ELSE a.tmax)
       ELSE RatMul(a.tfrac, tot)
NoTimes(a) == a.tmax[1] <= 0 /\ a.tfrac[1] <= 0
RECURSIVE FixPow(_, _)
FixPow(r, n) == IF n = 0 THEN FixOne
                ELSE IF n % 2 = 1 THEN FixMul(r, FixPow(r, n - 1))
                ELSE FixSqr(FixPow(r, n \div 2))
RootIsOk(r, n, T) == NearRel(FixPow(r, n), FixRat(T), 2000)
RoundFix(x) == IF x[2] < 500000000 THEN x[1] ELSE x[1] + 1
Times(cmd, a, tr, r) ==
    LET T == LastTime(cmd, a, tr)
        n == a.ts
    IN IF NoTimes(a) THEN <<>>
       ELSE <<<<0, 1>>>> \o
            (IF a.func = "linear"
             THEN [i \in 1..n |-> IF i = 1 THEN <<1, 1>> ELSE RatAdd(<<1, 1>>, RatMul(<<i - 1, n - 1>>, RatSub(T, <<1, 1>>)))]
             ELSE [i \in 1..n |-> IF i = 1 THEN <<1, 1>> ELSE <<RoundFix(FixPow(r, i)), 1>>])
\* Default grids of the classes, when no time is given
OwnTimes(cmd) == CASE cmd = "msd" -> <<1, 1, 30>> [] cmd = "vacf" -> <<1, 10, 12>> [] cmd = "alpha2" -> <<3, 4, 20>>
                   [] OTHER -> <<>>

(***************************************************************************)
(* Jobs                                                                    *)
(***************************************************************************)
KindOf(cmd) == IF cmd = "chi4qs" THEN "chi4" ELSE cmd
TwoBody == {"gr", "ba", "sk", "fkt"}
TimeCmds == {"msd", "vacf", "alpha2", "qst", "qt", "chi4qs", "fkt", "fskt"}
KCmds == {"sk", "ik", "fkt", "fskt"}

RatLin(lo, hi, n) == [i \in 1..n |-> IF i = 1 THEN lo ELSE RatAdd(lo, RatMul(<<i - 1, n - 1>>, RatSub(hi, lo)))]
BaseConfig(e, a, tr, r, rc) ==
    LET kind == KindOf(e.cmd)
        none == e.cmd \in TimeCmds /\ NoTimes(a)
        \* up to the time to reach a given displacement, if no time is given
        rmsd == e.cmd = "msd" /\ none /\ a.rmsd[1] > 0
        given == a.kgrid # <<>> \/ e.cmd \in {"fkt", "fskt"}
        b == [kind |-> kind, o |-> e.g.o, flt |-> <<>>, nooff |-> FALSE, fixcm |-> FALSE, wt |-> "none", fluct |-> FALSE,
              tg |-> IF e.cmd \in TimeCmds THEN Times(e.cmd, a, tr, r) ELSE <<>>,
              tgk |-> IF ~none THEN "given" ELSE IF rmsd THEN "rmsd" ELSE IF OwnTimes(e.cmd) # <<>> THEN "lin" ELSE "log",
              norm |-> TRUE, per |-> TRUE, nb |-> 0, rs |-> <<tr.hd, tr.hn>>, a |-> <<1, 1>>, file |-> "", parts |-> <<>>,
              tmpl |-> e.g.tmpl, gtmpl |-> e.g.tmpl]
        x == a @@ b
        y == IF none THEN [lin |-> IF rmsd THEN a.rmsd \o <<OwnTimes(e.cmd)[3]>> ELSE OwnTimes(e.cmd)] @@ x ELSE x
    IN CASE e.cmd = "gr" -> y
         [] e.cmd = "ba" -> [sp |-> Labels(tr.fr[1]), rc |-> rc] @@ y @@ [rmax |-> <<0, 1>>]
         [] e.cmd \in KCmds ->
              [kreq |-> IF given THEN "given" ELSE "lin",
               g |-> IF a.kgrid # <<>> THEN a.kgrid ELSE IF given THEN RatLin(a.kmin, a.kmax, a.ks) ELSE <<>>,
               lin |-> IF given THEN <<0, 0, 1>> ELSE <<a.kmin[1], a.kmax[1], a.ks>>,
               vec |-> <<>>] @@ y
         [] OTHER -> y

Species(x) == [op |-> "eq", f |-> "species", x |-> x]
Total == [k |-> "total", flt |-> <<>>, tag |-> ""]
Filtered(g) == [k |-> "filter", flt |-> g.filter, expr |-> g.expr]
PairParts(cmd, sp) ==
    FlattenSeq([i \in 1..Len(sp) |-> [j \in 1..Len(sp) |->
        LET x == IF cmd = "ba" \/ i < j THEN i ELSE j
            y == IF cmd = "ba" \/ i < j THEN j ELSE i
        IN [k |-> "two", pair |-> <<sp[i], sp[j]>>,
            flt |-> IF x = y THEN <<Species(sp[x])>> ELSE <<Species(sp[x]), Species(sp[y])>>]]])
OneParts(sp) == [i \in 1..Len(sp) |-> [k |-> "one", flt |-> <<Species(sp[i])>>]]

HasFilter(g) == g.filter # <<>>
\* The total correlation is the default, but for those which are only wanted for the
\* partials unless they are requested, if there are several species
WantTotal(e, a, ns) == e.cmd \notin {"fkt", "fskt", "chi4qs"} \/ a.total \/ ns = 1 \/ HasFilter(e.g)
WantPartial(e, a, ns) == /\ ns > 1 /\ ~e.g.nopartial /\ ~HasFilter(e.g) /\ e.cmd # "ik"
                         /\ ~(e.cmd = "chi4qs" /\ a.total)

Jobs(tr, e, i) ==
    LET a == TLCEval(Args(e, tr))
        sp == Labels(tr.fr[1])
        c == TLCEval([BaseConfig(e, a, tr, e.lr[i], e.rc[i]) EXCEPT !.file = e.files[i]])
        one == IF HasFilter(e.g) THEN Filtered(e.g) ELSE Total
    IN (IF WantTotal(e, a, Len(sp)) THEN <<[c EXCEPT !.parts = <<one>>]>> ELSE <<>>)
       \o (IF WantPartial(e, a, Len(sp))
           THEN <<[c EXCEPT !.parts = IF e.cmd \in TwoBody THEN PairParts(e.cmd, sp) ELSE OneParts(sp)]>> ELSE <<>>)

(***************************************************************************)
(* Verdict: e.res[i][j][k] is the k-th part of the j-th job on the i-th    *)
(* file as calculated by the classes with the parameters of the job        *)
(***************************************************************************)
ApiVerdict(lib, fs, e) ==
    LET nf == 1..Len(e.files)
        V == TLCEval([i \in nf |-> View(lib, e, e.files[i])])
        J == TLCEval([i \in nf |-> Jobs(V[i], e, i)])
        A == TLCEval([i \in nf |-> Args(e, V[i])])
        at(i) == [tm |-> fs.tm[e.files[i]], f |-> fs.f]
        todo == TLCEval({z \in UNION {{<<i, j>> : j \in 1..Len(J[i])} : i \in nf} : Recompute(at(z[1]), J[z[1]][z[2]], e.g.update)})
        want == TLCEval(UNION {AllOutputs(J[z[1]][z[2]]) : z \in todo})
        seen == {w.path : w \in SeqSet(e.wrote)}
        logs == e.cmd \in TimeCmds
    IN IF ~e.ok THEN {"raised-" \o e.exc}
       ELSE (IF Len(e.gone) > 0 THEN {"file-lost"} ELSE {})
            \cup (IF \E w \in SeqSet(e.wrote) : ~w.ok THEN {"file-format"} ELSE {})
            \cup (IF want \ seen # {} THEN {"not-written"} ELSE {})
            \cup (IF seen \ want # {} THEN {"unexpected-file"} ELSE {})
            \* the harness follows the specification
            \cup (IF \E i \in nf : Len(e.res[i]) # Len(J[i]) \/ ~KdOk(e.kd, e.cmd, V[i])
                                   \/ (logs /\ A[i].func = "logx" /\ ~NoTimes(A[i]) /\ ~RootIsOk(e.lr[i], A[i].ts, LastTime(e.cmd, A[i], V[i])))
                  THEN {"plan"}
                  ELSE UNION {LET c == J[z[1]][z[2]]  r == e.res[z[1]][z[2]]
                              IN IF Len(r) # Len(c.parts) THEN {"plan"}
                                 ELSE UNION {LET d == [c EXCEPT !.flt = c.parts[k].flt]
                                                IN (IF FktRegular(V[z[1]], d, r[k]) THEN PartContentBad(c, c.parts[k], r[k], e.wrote) ELSE {})
                                                   \cup CorrVerdict(V[z[1]], d, r[k])
                                             : k \in 1..Len(c.parts)}
                              : z \in todo})

(***************************************************************************)
(* Default cutoffs of the bond angles: the first minimum of the partial    *)
(* g(r) after its maximum.  e.gr[i][j], e.rc[i][j]: g(r) and cutoff        *)
(***************************************************************************)
\* The maximum may be found in several bins, up to rounding
FirstMinima(v) ==
    LET top == FixMaxOf(v)
        after(b) == LET I == {i \in 1..(Len(v) - 1) : (i > b \/ b = 1) /\ FixLe(v[i], v[i + 1])}
                    IN IF I = {} THEN 0 ELSE Min(I)
    IN {after(b) : b \in {i \in 1..Len(v) : NearRel(v[i], top, 1000)}}
CutoffVerdict(tr, e) ==
    IF ~e.ok THEN (IF e.gr # <<>> /\ \E row \in SeqSet(e.gr) : \E r \in SeqSet(row) : 0 \in FirstMinima(r.v)
                   THEN {} \* there is no minimum
                   ELSE {"raised-" \o e.exc})
    ELSE LET sp == Labels(tr.fr[1])
             c == [e.c EXCEPT !.dr = Rat(tr.hd, 10 * tr.hn)]
             S == 1..Len(sp)
             flt(i, j) == IF i = j THEN <<Species(sp[i])>>
                          ELSE <<Species(sp[MinI(i, j)]), Species(sp[MaxI(i, j)])>>
         IN UNION {GrVerdict(tr, [c EXCEPT !.flt = flt(z[1], z[2])], e.gr[z[1]][z[2]]) : z \in S \X S}
            \cup IF \E i, j \in S :
                       LET M == FirstMinima(e.gr[i][j].v)
                       IN 0 \notin M /\ \A m \in M : ~NearFix(e.rc[i][j], FixRat(Rat(2 * m - 1, 20)), 30)
                 THEN {"cutoff"} ELSE {}
=============================================================================
