----------------------------- MODULE IdentityMC -----------------------------
EXTENDS Identity, Json
CONSTANTS Handles, Kinds, MaxOps, GEN
VARIABLES hist, kind, n
mv == <<ents, known, hist, kind, n>>
H(x) == hist' = Append(hist, x)
Vals == {<<"i", "1">>, <<"i", "7">>, <<"s", "x">>, <<"s", "yy">>, <<"d", "3">>, <<"io", "input">>, <<"v", "1.2.">>}
TagNames == {"a", "name", "io_type"}
Ways == {"copy", "assign", "variant", "net", "netvar", "model", "st", "mt"}
MCInit == IInit /\ hist = <<>> /\ kind = EmptyF /\ n = 0
Uids == {"f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "x", "y"}
Fresh == "f" \o ToString(Cardinality({u \in known : u \notin {"x", "y", NoUid}}) + 1)
Step ==
    \/ \E h \in Handles \ DOMAIN ents : \E k \in Kinds : \E ask \in IF k = "map" THEN {NoUid} ELSE {"fresh", "x", "y"} :
          /\ Make(h, ask, IF ask = "fresh" THEN Fresh ELSE ask)
          /\ kind' = (h :> k) @@ kind /\ H(<<"make", h, k, ask>>)
    \/ \E h \in DOMAIN ents : \E t \in TagNames : \E v \in IF t = "name" THEN {<<"s", "x">>, <<"s", "q">>} ELSE Vals :
          SetTag(h, t, v) /\ UNCHANGED kind /\ H(<<"set", h, t, v[1] \o ":" \o v[2]>>)
    \/ \E h \in DOMAIN ents : \E s \in {"one", "two"} :
          SetTag(h, "name", <<"s", s>>) /\ UNCHANGED kind /\ H(<<"setname", h, s>>)
    \/ \E h \in DOMAIN ents : \E t \in TagNames : \E ty \in {"i", "s", "d", "io", "v"} :
          UNCHANGED <<ents, known, kind>> /\ H(<<"get", h, t, ty>>)
    \/ \E h \in DOMAIN ents : \E to \in Handles : \E w \in Ways :
          /\ h # to /\ (w = "mt" => kind[h] \in {"p0", "p2", "j0", "j2"}) /\ (w = "st" => kind[h] # "net")
          /\ Carry(h, to) /\ kind' = (to :> kind[h]) @@ kind /\ H(<<"carry", h, to, w>>)
    \/ \E h \in DOMAIN ents : \E to \in Handles : h # to /\ Move(h, to) /\ kind' = (to :> kind[h]) @@ Without(kind, {h}) /\ H(<<"move", h, to>>)
Next == n < MaxOps /\ n' = n + 1 /\ Step
Spec == MCInit /\ [][Next]_mv
V == <<ents, known, kind, n>>
\* A step changes one entity at most, apart from moving it away.
OneAtATime == [][LET last == hist'[Len(hist')]
                     to == IF last[1] \in {"carry", "move"} THEN last[3] ELSE last[2]
                 IN \A h \in DOMAIN ents \intersect DOMAIN ents' : h # to => ents'[h] = ents[h]]_mv
\* Identifiers never change; copies are equal when made.
UidKept == [][LET last == hist'[Len(hist')] IN
                 /\ last[1] = "carry" => ents'[last[3]] = ents[last[2]]
                 /\ last[1] = "move" => ents'[last[3]] = ents[last[2]] /\ last[2] \notin DOMAIN ents'
                 /\ last[1] \in {"set", "setname"} => ents'[last[2]].uid = ents[last[2]].uid]_mv
\* What was set is read back, as the type it was set with.
ReadsLast == [][LET last == hist'[Len(hist')] IN
                 /\ last[1] = "setname" => ents'[last[2]].tags["name"] = <<"s", last[3]>>
                 /\ last[1] = "set" => LET v == ents'[last[2]].tags[last[3]] IN v[1] \o ":" \o v[2] = last[4]]_mv
Drawn == \A h \in DOMAIN ents : ents[h].uid \in known
Emit == (GEN /\ n = MaxOps) => PrintT("BEH " \o ToJson(hist))
=============================================================================
