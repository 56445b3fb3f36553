------------------------------ MODULE LoaderMC ------------------------------
(* The contract and, below it, the libraries: reference-counted, a library   *)
(* is mapped while someone refers to it. A loader refers to the libraries it *)
(* made backends of. HOLD says what else does: "none" nothing; "backend"     *)
(* every backend to its own library; "process" the process to every library  *)
(* it ever made a backend of.                                                *)
EXTENDS Loader, Json
CONSTANTS Ls, Bs, Es, MaxOps, HOLD, GEN
VARIABLES refs,     \* who refers to which library: set of <<holder, kind>>
          hist, n
mv == <<loaders, bes, used, eps, refs, hist, n>>
H(x) == hist' = IF GEN THEN Append(hist, x) ELSE hist
Paths == {"ST", "MT", "LIB", "TXT", "GONE"}
Mapped(k) == \E r \in refs : r[2] = k
MCInit == LInit /\ refs = {} /\ hist = <<>> /\ n = 0
Uid == Cardinality(used) + 1
Holders(x, b) == {x} \cup (CASE HOLD = "backend" -> {b} [] HOLD = "process" -> {"process"} [] OTHER -> {})
Gone(x) == refs' = {r \in refs : r[1] # x}
Step ==
    \/ \E x \in Ls \ loaders : NewLoader(x) /\ UNCHANGED refs /\ H(<<"loader", x>>)
    \/ \E x \in loaders : DropLoader(x) /\ Gone(x) /\ H(<<"droploader", x>>)
    \/ \E x \in loaders, p \in Paths, b \in Bs \ DOMAIN bes :
          /\ \A e \in DOMAIN eps : eps[e].b # b          \* names of backends are not used again
          /\ Load(x, p, b, Uid, IF IsBackend(p) THEN "ok" ELSE "fail")
          /\ refs' = refs \union (IF IsBackend(p) THEN {<<h, p>> : h \in Holders(x, b)} ELSE {})
          /\ H(<<"load", x, p, b>>)
    \/ \E p \in Paths : Ask(p, CASE IsBackend(p) -> "yes" [] KindOf(p) = "library" -> "no" [] OTHER -> "fail") /\ UNCHANGED refs /\ H(<<"is", p>>)
    \/ \E b \in DOMAIN bes : Run(b, 2) /\ UNCHANGED refs /\ H(<<"run", b, 2>>)
    \/ \E b \in DOMAIN bes : Drop(b) /\ Gone(b) /\ H(<<"drop", b>>)
    \/ \E b \in DOMAIN bes, e \in Es : NewEp(b, e) /\ UNCHANGED refs /\ H(<<"ep", b, e>>)
    \/ \E e \in DOMAIN eps : Use(e, Arrive(e)) /\ UNCHANGED refs /\ H(<<"use", e>>)
    \/ \E e \in DOMAIN eps : DropEp(e) /\ UNCHANGED refs /\ H(<<"dropep", e>>)
Next == n < MaxOps /\ n' = n + 1 /\ Step
Spec == MCInit /\ [][Next]_mv
V == <<loaders, bes, used, eps, refs, n>>
\* the code of a held backend, and of what it made, is there
CodeThere == (\A b \in DOMAIN bes : Mapped(bes[b].kind)) /\ (\A e \in DOMAIN eps : Mapped(eps[e].kind))
\* nobody but a loader, a held backend or the process holds a library
NoLeak == \A r \in refs : r[1] \in loaders \union DOMAIN bes \union {"process"}
Own == \A a, b \in DOMAIN bes : bes[a].uid = bes[b].uid => a = b
OthersKeep == [][\A b \in DOMAIN bes \intersect DOMAIN bes' : bes'[b].uid = bes[b].uid /\ bes'[b].step >= bes[b].step]_mv
Emit == (GEN /\ n = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
