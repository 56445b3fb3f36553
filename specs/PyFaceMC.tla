------------------------------ MODULE PyFaceMC ------------------------------
EXTENDS PyFace, Json
CONSTANTS MaxOps, GEN
VARIABLES hist, n, last
mv == <<obj, pop, prj, net, hist, n, last>>
\* last: the name of the object the call was about, and those it made or took away
Call(r, w) == hist' = Append(hist, r) /\ last' = w
T(v) == [g |-> "tag", v |-> v, o |-> ""]
O(o) == [g |-> "obj", v |-> 0, o |-> o]
None1 == [g |-> "none", v |-> 0, o |-> ""]
Lists == {<<>>, <<T(1)>>, <<None1, T(2)>>, <<T(3), [g |-> "raise", v |-> 0, o |-> ""]>>} \cup {<<O(o), T(4)>> : o \in DOMAIN obj}
Ends(l) == [i \in DOMAIN l |-> l[i] @@ [s |-> i, d |-> 7]]
Names == {"a", "b"}
NewPop == Names \ DOMAIN pop
K == "srblifat"
MCInit == PyInit /\ hist = <<>> /\ n = 0 /\ last = {}
Op ==
    \/ "o" \notin DOMAIN obj /\ Mk("o", K, 5) /\ Call([op |-> "mk", o |-> "o", k |-> K, v |-> 5], {"o"})
    \/ "o" \in DOMAIN obj /\ SetOk("o", "isi_max", "77", FALSE) /\ Call([op |-> "set", o |-> "o", f |-> "isi_max", v |-> 77], {"o"})
    \/ \E p \in NewPop, u \in {"U1", "U2"}, l \in Lists :
          (IF Outcome(l) = "ok" THEN MkPop(p, u, K, l) ELSE MkFails(l))
          /\ Call([op |-> "mkpop", p |-> p, u |-> u, k |-> K, how |-> "uid", list |-> l], {p})
    \/ \E p \in DOMAIN pop, l \in Lists : Len(pop[p].c) < 3 /\ Outcome(l) = "ok" /\ AddPop(p, l)
          /\ Call([op |-> "add", p |-> p, k |-> K, list |-> l], {p})
    \/ \E p \in DOMAIN pop : pop[p].c # <<>> /\ Rm(p, {0}) /\ Call([op |-> "rm", p |-> p, i |-> 0], {p})
    \/ \E p \in DOMAIN pop : Len(pop[p].c) > 1 /\ Rm(p, {0, Len(pop[p].c) - 1}) /\ Call([op |-> "rmmany", p |-> p, i |-> 0, is |-> <<Len(pop[p].c) - 1, 0>>], {p})
    \/ \E p \in DOMAIN pop : pop[p].c # <<>> /\ SetAt(p, Len(pop[p].c) - 1, "last_step", "12345", FALSE)
          /\ Call([op |-> "setat", p |-> p, i |-> Len(pop[p].c) - 1, f |-> "last_step", v |-> 12345], {p})
    \/ "j" \notin DOMAIN prj /\ \E l \in Lists : Outcome(l) = "ok" /\ ~(\E i \in DOMAIN l : l[i].g = "obj")
          /\ MkPrj("j", "V1", "delta", "U1", "U2", Ends(l))
          /\ Call([op |-> "mkprj", j |-> "j", u |-> "V1", k |-> "delta", how |-> "uid", pre |-> "U1", post |-> "U2", list |-> Ends(l)], {"j"})
    \/ "j" \in DOMAIN prj /\ Len(prj["j"].c) < 2 /\ AddSyn("j", Ends(<<T(8)>>)) /\ Call([op |-> "addsyn", j |-> "j", k |-> "delta", list |-> Ends(<<T(8)>>)], {"j"})
    \/ "n" \notin DOMAIN net /\ "m" \notin DOMAIN net /\ MkNet("n") /\ Call([op |-> "mknet", n |-> "n", how |-> "uid"], {"n"})
    \/ \E x \in DOMAIN net, p \in DOMAIN pop : (NAddPop(x, p) \/ NAddPopFails(x, p)) /\ Call([op |-> "npop", n |-> x, p |-> p], {x})
    \/ \E x \in DOMAIN net, p \in DOMAIN prj : (NAddPrj(x, p) \/ NAddPrjFails(x, p)) /\ Call([op |-> "nprj", n |-> x, j |-> p], {x})
    \/ \E x \in DOMAIN net, u \in {"U1", "U2"} : (NRm(x, "pops", u) \/ NFails(x, "pops", u)) /\ Call([op |-> "nrmpop", n |-> x, u |-> u], {x})
    \/ \E x \in DOMAIN net, u \in {"U1", "U2"}, p \in NewPop :
          (NGetPop(x, u, p) \/ NFails(x, "pops", u)) /\ Call([op |-> "ngetpop", n |-> x, u |-> u, p |-> p], {p})
    \/ "n" \in DOMAIN net /\ "m" \notin DOMAIN net /\ MkModel("m", "n") /\ Call([op |-> "model", m |-> "m", n |-> "n"], {"m", "n"})
    \/ "m" \in DOMAIN net /\ Detach("m", "n") /\ Call([op |-> "detach", m |-> "m", n |-> "n"], {"m", "n"})
    \/ "m" \in DOMAIN net /\ (OutCh("m", "x", "U1") \/ NFails("m", "pops", "U1")) /\ Call([op |-> "outch", m |-> "m", ch |-> "x", u |-> "U1"], {"m"})
    \/ "m" \in DOMAIN net /\ (InCh("m", "x", "V1") \/ NFails("m", "projs", "V1")) /\ Call([op |-> "inch", m |-> "m", ch |-> "x", u |-> "V1"], {"m"})
    \/ \E p \in DOMAIN pop : Drop(p) /\ Call([op |-> "drop", x |-> p], {p})
Next == n < MaxOps /\ n' = n + 1 /\ Op
Spec == MCInit /\ [][Next]_mv
V == <<obj, pop, prj, net, n>>
All(o, p, j, t) == [x \in DOMAIN o \cup DOMAIN p \cup DOMAIN j \cup DOMAIN t |->
    CASE x \in DOMAIN o -> <<"o", o[x]>> [] x \in DOMAIN p -> <<"p", p[x]>> [] x \in DOMAIN j -> <<"j", j[x]>> [] OTHER -> <<"n", t[x]>>]
\* A call changes nothing but the object it is about: what was put into a network, taken out of it or added to a population is a copy.
Copies == [][LET b == All(obj, pop, prj, net)  a == All(obj', pop', prj', net') IN
             \A x \in (DOMAIN a \cup DOMAIN b) \ last' : x \in DOMAIN a /\ x \in DOMAIN b /\ a[x] = b[x]]_mv
\* What a network holds came from a population or a projection of that identifier.
Held == \A x \in DOMAIN net : DOMAIN net[x].pops \subseteq {"U1", "U2"} /\ DOMAIN net[x].projs \subseteq {"V1"}
\* Only a model has channels.
OnlyModels == \A x \in DOMAIN net : ~net[x].model => net[x].ins = {} /\ net[x].outs = {}
\* The order of what is left does not change.
Order == [][\A p \in DOMAIN pop \cap DOMAIN pop' : hist'[Len(hist')].op \in {"rm", "rmmany"} =>
             \E S \in SUBSET (DOMAIN pop[p].c) : pop'[p].c = Rest(pop[p].c, {i - 1 : i \in S})]_mv
Emit == (GEN /\ n = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
