---------------------------- MODULE ProjectionMC ----------------------------
(* Bounded exploration of Projection together with the implementation's lazy *)
(* index (valid flag + table), and generation of behaviours.                 *)
EXTENDS Projection, Json
CONSTANTS Names, Neurons, MaxLen, MaxOps, GEN
VARIABLES hist, idx, valid, tag
mv == <<prj, hist, idx, valid, tag>>

\* The index: table of <<source, target, position>>, rebuilt by a lookup when not valid.
Table(c) == {<<c[i][1], c[i][2], i - 1>> : i \in DOMAIN c}
LookupIdx(p, f, x) == {t[3] : t \in {t \in (IF valid[p] THEN idx[p] ELSE Table(prj[p].c)) : t[f] = x}}

MCInit == PInit /\ hist = <<>> /\ idx = EmptyF /\ valid = EmptyF /\ tag = 0
H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
Lazy(p) == valid' = [valid EXCEPT ![p] = FALSE] /\ UNCHANGED idx
Str(s) == ToString(s[1]) \o ">" \o ToString(s[2]) \o ":" \o ToString(s[3])
T(n) == IF GEN THEN tag + n ELSE 0

Step ==
    \/ \E p \in Names \ DOMAIN prj :
          /\ Make(p, "A", "B", <<>>) /\ tag' = tag
          /\ idx' = (p :> {}) @@ idx /\ valid' = (p :> FALSE) @@ valid
          /\ H(<<"make", p, "A", "B", "empty", "-">>)
    \/ \E p \in DOMAIN prj, a, b \in Neurons :
          /\ Len(prj[p].c) < MaxLen
          /\ Add(p, <<<<a, b, T(0)>>>>) /\ Lazy(p) /\ tag' = T(1)
          /\ H(<<"add", p, Str(<<a, b, T(0)>>)>>)
    \/ \E p \in DOMAIN prj, a, b, c, d \in Neurons :
          /\ Len(prj[p].c) + 1 < MaxLen
          /\ Add(p, <<<<a, b, T(0)>>, <<>>, <<c, d, T(1)>>>>) /\ Lazy(p) /\ tag' = T(2)
          /\ H(<<"add", p, Str(<<a, b, T(0)>>) \o ",_," \o Str(<<c, d, T(1)>>)>>)
    \/ \E p \in DOMAIN prj : \E i \in 0 .. (Len(prj[p].c) - 1) :
          DropAt(p, i) /\ Lazy(p) /\ tag' = tag /\ H(<<"rm", p, i>>)
    \/ \E p \in DOMAIN prj, x \in Neurons :
          \/ RemoveIf(p, LAMBDA s : s[1] = x) /\ Lazy(p) /\ tag' = tag /\ H(<<"rmpre", p, x>>)
          \/ RemoveIf(p, LAMBDA s : s[2] = x) /\ Lazy(p) /\ tag' = tag /\ H(<<"rmpost", p, x>>)
    \/ \E p \in DOMAIN prj, r \in {0, 1} :
          GEN /\ RemoveIf(p, LAMBDA s : s[3] % 2 = r) /\ Lazy(p) /\ tag' = tag /\ H(<<"rmif", p, 2, r>>)
    \/ \E p \in DOMAIN prj : Clear(p) /\ Lazy(p) /\ tag' = tag /\ H(<<"clear", p>>)
    \/ \E p \in DOMAIN prj, by \in {"pre", "post"}, x \in Neurons :
          /\ UNCHANGED <<prj, tag>>
          /\ idx' = [idx EXCEPT ![p] = IF valid[p] THEN @ ELSE Table(prj[p].c)]
          /\ valid' = [valid EXCEPT ![p] = TRUE]
          /\ H(<<"find", p, by, x>>)
    \/ \E p, o \in Names : p \in DOMAIN prj /\ p # o
          /\ Copy(p, o) /\ tag' = tag
          /\ idx' = (o :> idx[p]) @@ idx /\ valid' = (o :> valid[p]) @@ valid
          /\ H(<<IF o \in DOMAIN prj THEN "assign" ELSE "copy", p, o>>)
Next == Len(hist) < MaxOps /\ Step
Spec == MCInit /\ [][Next]_mv

\* A lookup through the lazy index gives exactly the positions in the contents.
IndexAgrees == \A p \in DOMAIN prj, f \in {1, 2}, x \in Neurons :
    LookupIdx(p, f, x) = {i - 1 : i \in {i \in DOMAIN prj[p].c : prj[p].c[i][f] = x}}
PositionsSorted == \A p \in DOMAIN prj, by \in {"pre", "post"}, x \in Neurons :
    LET s == Find(p, by, x) IN \A i, j \in DOMAIN s : i < j => s[i] < s[j]
CountsSum == \A p \in DOMAIN prj : Len(prj[p].c) <= MaxLen
\* every operation touches one projection only
Bystander == [][Cardinality({p \in DOMAIN prj \intersect DOMAIN prj' : prj[p] # prj'[p]}) <= 1]_mv
Emit == (GEN /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
