------------------------------- MODULE PPLife -------------------------------
(***************************************************************************)
(* Life of the output files: where they are written, what they contain,    *)
(* when they are recomputed (update mode) and how they are read back.      *)
(*                                                                         *)
(* A number written to or parsed from a file is <<m, e>>, meaning          *)
(* m * 10^(e - 8), 10^8 <= |m| < 10^9 (nine significant digits), <<0, 0>>  *)
(* or a tuple of length one if it is not a finite number.                  *)
(*                                                                         *)
(* State of the file system: fs = [tm |-> modification time of the         *)
(* trajectory, f |-> [path |-> [t, rows]]]                                 *)
(***************************************************************************)
EXTENDS PPFourier

(***************************************************************************)
(* Numbers with six significant digits                                     *)
(***************************************************************************)
\* half a unit of the sixth digit, plus the error of the ninth one
Half6 == 502
SciNear(a, b, tol) ==
    \/ a = b
    \/ /\ Len(a) = 2 /\ Len(b) = 2
       /\ (a[1] < 0) = (b[1] < 0)
       /\ LET d == a[2] - b[2]
          IN CASE d = 0  -> Abs(a[1] - b[1]) <= tol
               [] d = 1  -> Abs(a[1]) < 200000000 /\ Abs(a[1] * 10 - b[1]) <= tol * 10
               [] d = -1 -> Abs(b[1]) < 200000000 /\ Abs(b[1] * 10 - a[1]) <= tol * 10
               [] OTHER -> FALSE
\* Rounding errors around zero are not compared
Noise(a) == a[1] = 0 \/ a[2] < -10
Sci6(a, b) == SciNear(a, b, Half6) \/ (Noise(a) /\ Noise(b))
SciSeq6(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Sci6(a[i], b[i])

(***************************************************************************)
(* Names of the correlations: symbol, short name, long name                *)
(***************************************************************************)
NamesOf(kind) ==
    CASE kind = "msd"    -> <<"msd", "dr^2(t)", "mean square displacement">>
      [] kind = "vacf"   -> <<"vacf", "Z(t)", "velocity autocorrelation">>
      [] kind = "alpha2" -> <<"alpha2", "alpha_2(t)", "non-Gaussian parameter">>
      [] kind = "qst"    -> <<"qst", "Q_s(t)", "self overlap">>
      [] kind = "qt"     -> <<"qt", "Q(t)", "collective overlap">>
      [] kind = "chi4"   -> <<"chi4qs", "chi_4(t)", "dynamic susceptibility of self overlap">>
      [] kind = "qsu"    -> <<"qsu", "Q^u(t)", "Average of self overlap, not normalized">>
      [] kind = "q2su"   -> <<"q2su", "Q_2^u(t)", "Variance of self overlap, not normalized">>
      [] kind = "gr"     -> <<"gr", "g(r)", "radial distribution function">>
      [] kind = "ba"     -> <<"ba", "D(theta)", "bond angle distribution">>
      [] kind = "sk"     -> <<"sk", "S(k)", "structure factor">>
      [] kind = "ik"     -> <<"ik", "I(k)", "spectral density">>
      [] kind = "fkt"    -> <<"fkt", "F(k,t)", "intermediate scattering function">>
      [] kind = "fskt"   -> <<"fskt", "F_s(k,t)", "self intermediate scattering function">>

(***************************************************************************)
(* Strings                                                                 *)
(***************************************************************************)
At(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
UpTo(s, i) == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
StrMap(s, F(_)) == Concat([i \in 1..Len(s) |-> F(At(s, i))])
Unspaced(s) == StrMap(s, LAMBDA c : IF c = " " THEN "_" ELSE c)

\* Pairs of punctuation marks are collapsed, marks at the ends removed
RECURSIVE Collapse(_, _)
Collapse(s, c) ==
    IF Len(s) < 2 THEN s
    ELSE IF At(s, 1) = c /\ At(s, 2) = c THEN c \o Collapse(From(s, 3), c)
    ELSE At(s, 1) \o Collapse(From(s, 2), c)
RECURSIVE StripL(_, _)
StripL(s, c) == IF s # "" /\ At(s, 1) = c THEN StripL(From(s, 2), c) ELSE s
RECURSIVE StripR(_, _)
StripR(s, c) == IF s # "" /\ At(s, Len(s)) = c THEN StripR(UpTo(s, Len(s) - 1), c) ELSE s
Clean1(s, c) == StripR(StripL(Collapse(s, c), c), c)
Clean(s) == Clean1(Clean1(Clean1(s, "."), "_"), "-")

LastSlash(s) == LET I == {i \in 1..Len(s) : At(s, i) = "/"} IN IF I = {} THEN 0 ELSE Max(I)
CleanPath(s) == LET k == LastSlash(s) IN UpTo(s, k) \o Clean(From(s, k + 1))

(***************************************************************************)
(* Paths.  A template is a sequence of tokens: <<"lit", string>> or        *)
(* <<variable>>                                                            *)
(***************************************************************************)
Token(tok, names, file, tag, desc) ==
    CASE tok[1] = "lit"   -> tok[2]
      [] tok[1] = "file"  -> file
      [] tok[1] = "symbol" -> names[1]
      [] tok[1] = "short" -> names[2]
      [] tok[1] = "long"  -> Unspaced(names[3])
      [] tok[1] = "tag"   -> tag
      [] tok[1] = "desc"  -> Unspaced(desc)
PathOf(tmpl, names, file, tag, desc) ==
    CleanPath(Concat([i \in 1..Len(tmpl) |-> Token(tmpl[i], names, file, tag, desc)]))

\* Tag of a filter: its expression without spaces and quotes
ValueTag(c) == IF c.f = "species" THEN c.x ELSE ToString(c.x)
RECURSIVE CondTag(_)
CondTag(c) ==
    CASE c.op = "true" -> "True"
      [] c.op = "and" -> CondTag(c.a) \o "_" \o CondTag(c.b)
      [] c.op = "or"  -> CondTag(c.a) \o "+" \o CondTag(c.b)
      [] c.op = "eq"  -> c.f \o ValueTag(c)
      [] c.op = "ne"  -> c.f \o ".not" \o ValueTag(c)
      [] c.op = "lt"  -> c.f \o "<" \o ValueTag(c)
      [] c.op = "gt"  -> c.f \o ">" \o ValueTag(c)

WeightTag(c) == IF c.wt = "none" THEN "" ELSE "." \o c.wt \o "_" \o (IF c.fluct THEN "fluctuations" ELSE "")
WeightDesc(c) == IF c.wt = "none" THEN "" ELSE " with " \o c.wt \o (IF c.fluct THEN " fluctuations field" ELSE " field")

\* A part of a life object: total, filtered, or partial
PartTag(c, p) ==
    (CASE p.k = "total" -> p.tag
       [] p.k = "filter" -> CondTag(p.flt[1]) \o (IF Len(p.flt) = 2 /\ p.flt[2].op # "true" THEN "-" \o CondTag(p.flt[2]) ELSE "")
       [] p.k = "one" -> p.flt[1].x
       [] p.k = "two" -> p.pair[1] \o "-" \o p.pair[2])
    \o WeightTag(c)
PartDesc(c, p) ==
    (CASE p.k = "total" -> "the whole system"
       [] p.k = "filter" -> p.expr
       [] p.k = "one" -> "species " \o p.flt[1].x
       [] p.k = "two" -> "species pair " \o p.pair[1] \o "-" \o p.pair[2])
    \o WeightDesc(c)

MainPath(c, p) == PathOf(c.tmpl, NamesOf(c.kind), c.file, PartTag(c, p), PartDesc(c, p))
MomentPath(c, p, k) == PathOf(c.gtmpl, NamesOf(k), c.file, PartTag(c, p), PartDesc(c, p))

\* All the files written by a part, <<path, role>>; none if the trajectory is in memory
PartOutputs(c, p) ==
    IF c.file = "" THEN {}
    ELSE {<<MainPath(c, p), "main">>}
         \cup (IF c.kind \in {"fkt", "fskt"} THEN {<<MainPath(c, p) \o ".tau", "tau">>} ELSE {})
         \cup (IF c.kind = "chi4" THEN {<<MomentPath(c, p, "qsu"), "av">>, <<MomentPath(c, p, "q2su"), "va">>} ELSE {})

(***************************************************************************)
(* Update mode                                                             *)
(***************************************************************************)
Stale(fs, path) == path \notin DOMAIN fs.f \/ ~(fs.tm < fs.f[path].t)
NeedUpdate(fs, c) == c.file = "" \/ \E i \in 1..Len(c.parts) : Stale(fs, MainPath(c, c.parts[i]))
Recompute(fs, c, upd) == ~upd \/ NeedUpdate(fs, c)

(***************************************************************************)
(* Contents                                                                *)
(* r.sg: grid, r.st: second grid (empty for one variable), r.sv: values    *)
(***************************************************************************)
TwoVar(c) == c.kind \in {"fkt", "fskt"}
NRows(c, r) == IF TwoVar(c) THEN Len(r.sg) * Len(r.st) ELSE Len(r.sg)
ExpRow(c, r, n) ==
    IF TwoVar(c)
    THEN LET i == (n - 1) \div Len(r.st) + 1  j == ((n - 1) % Len(r.st)) + 1
         IN <<r.sg[i], r.st[j], r.sv[i][j]>>
    ELSE <<r.sg[n], r.sv[n]>>
ShapeOk(c, r) == /\ Len(r.sv) = Len(r.sg)
                 /\ TwoVar(c) => \A i \in 1..Len(r.sv) : Len(r.sv[i]) = Len(r.st)
RowsOk(c, r, rows) ==
    /\ ShapeOk(c, r)
    /\ Len(rows) = NRows(c, r)
    /\ \A n \in 1..Len(rows) : SciSeq6(ExpRow(c, r, n), rows[n])

\* Relaxation times: <<k, tau>>, or <<k>> if there is none
TauRowsOk(r, rows) ==
    /\ Len(rows) = Len(r.tau)
    /\ \A n \in 1..Len(rows) : SciSeq6(r.tau[n], rows[n])
MomentRowsOk(r, vals, rows) ==
    /\ Len(rows) = Len(r.sg) /\ Len(vals) = Len(r.sg)
    /\ \A n \in 1..Len(rows) : SciSeq6(<<r.sg[n], vals[n]>>, rows[n])

ContentOk(c, r, role, rows) ==
    CASE role = "main" -> RowsOk(c, r, rows)
      [] role = "tau" -> TauRowsOk(r, rows)
      [] role = "av" -> MomentRowsOk(r, r.sav, rows)
      [] role = "va" -> MomentRowsOk(r, r.sva, rows)

\* The results of the analysis are reported in the header
HeaderOk(r, hdr) == \A i \in 1..Len(r.an) : \E j \in 1..Len(hdr) : hdr[j][1] = r.an[i][1] /\ hdr[j][2] = r.an[i][2]

SeqSet(s) == {s[i] : i \in 1..Len(s)}
WrittenAt(wrote, path) == CHOOSE w \in SeqSet(wrote) : w.path = path

PartContentBad(c, p, r, wrote) ==
    LET out == TLCEval(PartOutputs(c, p))
        seen == {w.path : w \in SeqSet(wrote)}
    IN (IF \E o \in out : o[1] \in seen /\ ~ContentOk(c, r, o[2], WrittenAt(wrote, o[1]).rows) THEN {"file-content"} ELSE {})
       \cup (IF \E o \in out : o[1] \in seen /\ o[2] = "main" /\ ~HeaderOk(r, WrittenAt(wrote, o[1]).hdr) THEN {"file-header"} ELSE {})

AllOutputs(c) == UNION {{o[1] : o \in PartOutputs(c, c.parts[i])} : i \in 1..Len(c.parts)}
DistinctPaths(c) == \A i, j \in 1..Len(c.parts) : i # j =>
                 {o[1] : o \in PartOutputs(c, c.parts[i])} \cap {o[1] : o \in PartOutputs(c, c.parts[j])} = {}

\* The symmetric partial of a two-body correlation
CorrVerdict(tr, c, res) ==
    CASE c.kind = "chi4" -> Chi4Verdict(tr, c, res)
      [] c.kind = "susc" -> SuscVerdict(tr, c, res)
      [] c.kind = "gr" -> GrVerdict(tr, c, res)
      [] c.kind = "ba" -> BaVerdict(tr, c, res)
      [] c.kind = "sk" -> SkVerdict(tr, c, res)
      [] c.kind = "ik" -> IkVerdict(tr, c, res)
      [] c.kind \in {"fskt", "fkt"} -> FtVerdict(tr, c, res)
      [] OTHER -> DynVerdict(tr, c, res)

(***************************************************************************)
(* The particles of the trajectory, after any number of calculations       *)
(***************************************************************************)
SameVecs(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Len(a[i]) = Len(b[i]) /\ \A d \in 1..Len(b[i]) : Near(a[i][d], b[i][d], 1)
SameVec(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Near(a[i], b[i], 1)
PureFramesVerdict(tr, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE IF res.n # Len(tr.fr) THEN {"number-of-frames"}
    ELSE LET F == 1..Len(tr.fr) IN
         (IF \E f \in F : ~SameVecs(res.p[f], tr.fr[f].p) THEN {"particles-moved"} ELSE {})
         \cup (IF \E f \in F : ~SameVecs(res.v[f], tr.fr[f].v) THEN {"velocities-changed"} ELSE {})
         \cup (IF \E f \in F : res.s[f] # tr.fr[f].s THEN {"species-changed"} ELSE {})
         \cup (IF \E f \in F : ~SameVec(res.m[f], tr.fr[f].m) \/ ~SameVec(res.r[f], tr.fr[f].r) THEN {"properties-changed"} ELSE {})
         \cup (IF \E f \in F : ~SameVec(res.L[f], tr.fr[f].L) THEN {"cell-changed"} ELSE {})
         \cup (IF tr.pu /\ \E f \in F : ~SameVecs(res.u[f], tr.fr[f].u) THEN {"unfolded-moved"} ELSE {})
         \* attributes which the particles had not
         \cup (IF Len(res.x) > 0 THEN {"particles-polluted"} ELSE {})

ReadOk(fs, c, p, r) == LET path == MainPath(c, p) IN path \in DOMAIN fs.f /\ RowsOk(c, r, fs.f[path].rows)

\* do(update) on object c: e.upd, e.res (one result per part), e.wrote (new or
\* modified files), e.gone (files that disappeared)
DoVerdict(fs, tr, c, e) ==
    IF ~e.ok THEN {"raised-" \o e.exc}
    ELSE LET seen == {w.path : w \in SeqSet(e.wrote)}
             np == 1..Len(c.parts)
         IN (IF Len(e.gone) > 0 THEN {"file-lost"} ELSE {})
            \cup (IF \E w \in SeqSet(e.wrote) : ~w.ok THEN {"file-format"} ELSE {})
            \cup IF Recompute(fs, c, e.upd)
                 THEN LET want == TLCEval(AllOutputs(c))
                      IN (IF want \ seen # {} THEN {"not-written"} ELSE {})
                         \cup (IF seen \ want # {} THEN {"unexpected-file"} ELSE {})
                         \cup UNION {PartContentBad(c, c.parts[i], e.res[i], e.wrote) : i \in np}
                         \cup UNION {CorrVerdict(tr, [c EXCEPT !.flt = c.parts[i].flt], e.res[i]) : i \in np}
                 ELSE (IF seen # {} THEN {"needless-write"} ELSE {})
                      \cup (IF \E i \in np : ~ReadOk(fs, c, c.parts[i], e.res[i]) THEN {"read-back"} ELSE {})

\* compute() does not write anything; write() writes what is in memory
ComputeVerdict(fs, tr, c, e) ==
    IF ~e.ok THEN {"raised-" \o e.exc}
    ELSE (IF Len(e.wrote) > 0 \/ Len(e.gone) > 0 THEN {"compute-wrote"} ELSE {})
         \cup UNION {CorrVerdict(tr, [c EXCEPT !.flt = c.parts[i].flt], e.res[i]) : i \in 1..Len(c.parts)}
WriteVerdict(fs, tr, c, e) ==
    IF ~e.ok THEN {"raised-" \o e.exc}
    ELSE LET seen == {w.path : w \in SeqSet(e.wrote)}
             \* no relaxation times without an analysis
             want == TLCEval(UNION {{o[1] : o \in {x \in PartOutputs(c, c.parts[i]) : x[2] # "tau" \/ Len(e.res[i].tau) > 0}}
                                    : i \in 1..Len(c.parts)})
         IN (IF Len(e.gone) > 0 THEN {"file-lost"} ELSE {})
            \cup (IF want # seen THEN {"not-written"} ELSE {})
            \cup UNION {PartContentBad(c, c.parts[i], e.res[i], e.wrote) : i \in 1..Len(c.parts)}
ReadVerdict(fs, c, e) ==
    IF ~e.ok THEN {"raised-" \o e.exc}
    ELSE (IF Len(e.wrote) > 0 \/ Len(e.gone) > 0 THEN {"read-wrote"} ELSE {})
         \cup (IF \E i \in 1..Len(c.parts) : ~ReadOk(fs, c, c.parts[i], e.res[i]) THEN {"read-back"} ELSE {})
NeedVerdict(fs, c, e) ==
    IF ~e.ok THEN {"raised-" \o e.exc}
    ELSE IF e.need # NeedUpdate(fs, c) THEN {"need-update"} ELSE {}

\* Effect of the written files on the file system
AfterWrite(fs, e, t) ==
    LET new == {w.path : w \in SeqSet(e.wrote)}
        old == DOMAIN fs.f \ SeqSet(e.gone)
    IN [fs EXCEPT !.f = [p \in new \cup old |->
            IF p \in new THEN [t |-> t, rows |-> WrittenAt(e.wrote, p).rows] ELSE fs.f[p]]]
=============================================================================
