----------------------------- MODULE PyFaceTrace -----------------------------
EXTENDS PyFace, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<obj, pop, prj, net, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
Named(rec, f) == Set([i \in DOMAIN rec |-> rec[i].n]) = DOMAIN f /\ Len(rec) = Cardinality(DOMAIN f)

I(x) == [t |-> x.t, ch |-> Set(x.ch)]                          \* a recorded item
Items(s) == [i \in DOMAIN s |-> I(s[i])]
Conns(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][2], I(s[i][3])>>]
SamePop(r, p) == r.uid = p.uid /\ r.k = p.k /\ Items(r.c) = p.c
SamePrj(r, j) == r.uid = j.uid /\ r.k = j.k /\ r.pre = j.pre /\ r.post = j.post /\ Conns(r.c) = j.c
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameReg(S, r) == /\ Len(r) = Cardinality(S)
                 /\ TRUE = \A i \in DOMAIN r : Count(r, r[i]) = Cardinality({t \in S : <<t[1], t[2]>> = r[i]})
Keyed(s, f, Same(_, _)) == /\ Len(s) = Cardinality(DOMAIN f)
                           /\ {s[i].uid : i \in DOMAIN s} = DOMAIN f
                           /\ TRUE = \A i \in DOMAIN s : Same(s[i], f[s[i].uid])
\* what the program sees after the call, and what the objects hold
MatchObj(st, o) == Named(st, o) /\ \A i \in DOMAIN st : LET r == st[i] IN r.k = o[r.n].k /\ I(r.i) = o[r.n].i
MatchPop(st, p) == Named(st, p) /\ \A i \in DOMAIN st : st[i].same /\ SamePop(st[i], p[st[i].n])
MatchPrj(st, j) == Named(st, j) /\ \A i \in DOMAIN st : st[i].same /\ SamePrj(st[i], j[st[i].n])
MatchNet(st, n) == Named(st, n) /\ \A i \in DOMAIN st :
    LET r == st[i]  s == n[r.n] IN
    /\ r.same /\ Keyed(r.pops, s.pops, SamePop) /\ Keyed(r.projs, s.projs, SamePrj)
    /\ r.model = s.model /\ SameReg(s.ins, r.ins) /\ SameReg(s.outs, r.outs)
Matches == MatchObj(E.st.obj, obj') /\ MatchPop(E.st.pop, pop') /\ MatchPrj(E.st.prj, prj') /\ MatchNet(E.st.net, net')
Ok == E.res = "ok"
Gen == /\ E.calls = Asked(E.list)
       /\ E.res = (CASE Outcome(E.list) = "ok" -> "ok" [] Outcome(E.list) = "raise" -> "ValueError" [] OTHER -> "TypeError")
Failed == E.res # "ok"
\* attribute by attribute: what the program reads is what the field holds
Shows(k, py, cc) == /\ Attrs(k) \subseteq {py[i][1] : i \in DOMAIN py}
                    /\ \A i \in DOMAIN py : py[i][1] \in Attrs(k) => \E j \in DOMAIN cc : cc[j] = <<FieldOf(py[i][1]), py[i][2]>>
Same == UNCHANGED pvars
Next ==
    \/ Is("new") /\ obj' = None /\ pop' = None /\ prj' = None /\ net' = None /\ Matches
    \/ Is("mk") /\ Ok /\ Mk(E.o, E.k, E.v) /\ TRUE = Shows(E.k, E.py, E.cc) /\ Matches
    \/ Is("dflt") /\ E.py = E.cc /\ Same /\ Matches
    \/ Is("synth") /\ Same /\ TRUE = Shows("delta", E.py, E.cc) /\ Set(E.cc) = {<<"weight", E.w>>, <<"delay", E.d>>, <<"output_type", E.ty>>} /\ Matches
    \/ Is("set") /\ (IF Ok THEN SetOk(E.o, E.f, E.v, E.made) ELSE SetFails(E.o, E.f)) /\ TRUE = Shows(obj[E.o].k, E.py, E.cc) /\ Matches
    \/ Is("mkpop") /\ Gen /\ (IF Ok THEN MkPop(E.p, E.u, E.k, E.list) ELSE MkFails(E.list)) /\ Matches
    \/ Is("nocall") /\ E.res = "TypeError" /\ Same /\ Matches
    \/ Is("add") /\ Gen /\ (IF Ok THEN AddPop(E.p, E.list) ELSE AddFails(E.p, E.list)) /\ Matches
    \/ Is("rm") /\ Ok /\ Rm(E.p, {E.i}) /\ Matches
    \/ Is("rmmany") /\ Ok /\ Rm(E.p, Set(E.is)) /\ Matches
    \/ Is("setat") /\ Ok /\ SetAt(E.p, E.i, E.f, E.v, E.made) /\ Matches
    \/ Is("get") /\ (IF InRange(pop[E.p].c, E.i) THEN Ok /\ I(E.it) = pop[E.p].c[E.i + 1] /\ TRUE = Shows(pop[E.p].k, E.py, E.cc) ELSE Failed)
                 /\ Same /\ Matches
    \/ Is("getj") /\ (IF InRange(prj[E.j].c, E.i)
                      THEN Ok /\ <<E.it[1], E.it[2], I(E.it[3])>> = prj[E.j].c[E.i + 1] /\ TRUE = Shows(prj[E.j].k, E.py, E.cc) ELSE Failed)
                  /\ Same /\ Matches
    \/ Is("mkprj") /\ Gen /\ (IF Ok THEN MkPrj(E.j, E.u, E.k, E.pre, E.post, E.list) ELSE MkFails(E.list)) /\ Matches
    \/ Is("addsyn") /\ Gen /\ (IF Ok THEN AddSyn(E.j, E.list) ELSE AddSynFails(E.j, E.list)) /\ Matches
    \/ Is("mknet") /\ Ok /\ MkNet(E.n) /\ Matches
    \/ Is("npop") /\ (IF Ok THEN NAddPop(E.n, E.p) ELSE NAddPopFails(E.n, E.p)) /\ Matches
    \/ Is("nprj") /\ (IF Ok THEN NAddPrj(E.n, E.j) ELSE NAddPrjFails(E.n, E.j)) /\ Matches
    \/ Is("nrmpop") /\ (IF Ok THEN NRm(E.n, "pops", E.u) ELSE NFails(E.n, "pops", E.u)) /\ Matches
    \/ Is("nrmprj") /\ (IF Ok THEN NRm(E.n, "projs", E.u) ELSE NFails(E.n, "projs", E.u)) /\ Matches
    \/ Is("ngetpop") /\ (IF Ok THEN NGetPop(E.n, E.u, E.p) ELSE NFails(E.n, "pops", E.u)) /\ Matches
    \/ Is("ngetprj") /\ (IF Ok THEN NGetPrj(E.n, E.u, E.j) ELSE NFails(E.n, "projs", E.u)) /\ Matches
    \/ Is("model") /\ Ok /\ MkModel(E.m, E.n) /\ Matches
    \/ Is("setnet") /\ Ok /\ SetNet(E.m, E.n) /\ Matches
    \/ Is("detach") /\ Ok /\ Detach(E.m, E.n) /\ Matches
    \/ Is("inch") /\ (IF Ok THEN InCh(E.m, E.ch, E.u) ELSE NFails(E.m, "projs", E.u)) /\ Matches
    \/ Is("outch") /\ (IF Ok THEN OutCh(E.m, E.ch, E.u) ELSE NFails(E.m, "pops", E.u)) /\ Matches
    \/ Is("drop") /\ Ok /\ Drop(E.x) /\ Matches
    \/ Is("uids") /\ Same /\ Matches
         /\ TRUE = \A i \in DOMAIN E.cmp : LET x == E.cmp[i]  eq == x.a = x.b IN
                x.eq = eq /\ x.ne = ~eq /\ (eq => x.hash) /\ (x.lt + x.gt = IF eq THEN 0 ELSE 1) /\ x.str = eq /\ x.valid = (x.a # "")
TraceSpec == PyInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
