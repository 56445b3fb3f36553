---------------------------- MODULE IdentityTrace ----------------------------
EXTENDS Identity, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tv == <<ents, known, l>>
E == Trace[l]
Is(o) == l <= Len(Trace) /\ E.op = o /\ l' = l + 1
Set(s) == {s[i] : i \in DOMAIN s}
Shown(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] \o ":" \o v[2]
\* what is seen of every entity, through constant access only
Matches ==
    TRUE = (
    /\ Len(E.st) = Cardinality(DOMAIN ents')
    /\ {E.st[i].h : i \in DOMAIN E.st} = DOMAIN ents'
    /\ \A i \in DOMAIN E.st :
         LET r == E.st[i]  e == ents'[r.h] IN
           /\ r.uid = e.uid
           /\ r.empty = (DOMAIN e.tags = {})
           /\ r.abs
           /\ Len(r.tags) = Cardinality(DOMAIN e.tags)
           /\ \A k \in DOMAIN r.tags : r.tags[k][1] \in DOMAIN e.tags /\ r.tags[k][2] = Shown(e.tags[r.tags[k][1]])
           /\ r.name # "-" => r.name = Shown(NameOf(e)) )
\* <type>:<text> as a value
Split(s) == LET c == CHOOSE i \in 1 .. Len(s) : SubSeq(s, i, i) = ":" /\ \A j \in 1 .. (i - 1) : SubSeq(s, j, j) # ":"
            IN <<SubSeq(s, 1, c - 1), SubSeq(s, c + 1, Len(s))>>
Next ==
    \/ Is("new") /\ ents' = EmptyF /\ known' = {} /\ Matches
    \/ Is("make") /\ Make(E.h, E.ask, E.uid) /\ Matches
    \/ Is("set") /\ SetTag(E.h, E.n, Split(E.v)) /\ Matches
    \/ Is("get") /\ UNCHANGED ivars /\ E.res = Shown(Read(E.h, E.n, E.t)) /\ Matches
    \/ Is("carry") /\ Carry(E.h, E.to) /\ Matches
    \/ Is("move") /\ Move(E.h, E.to) /\ Matches
    \/ Is("fresh") /\ E.valid /\ Draw(E.us) /\ Matches
    \/ Is("count") /\ UNCHANGED ivars
         /\ TRUE = (/\ {NumberOf(E.us[i]) : i \in DOMAIN E.us} = E.start .. (E.start + Len(E.us) - 1)
                    /\ \A i \in DOMAIN E.us : \A j \in 5 .. 16 : E.us[i][j] = 0)
    \/ Is("uid") /\ UNCHANGED ivars
         /\ TRUE = (/\ E.b = E.a /\ E.copy = E.a /\ E.boost = E.a /\ E.in = E.a
                    /\ E.str = Text(E.a) /\ E.out = E.str
                    /\ E.valid = (E.a # Nil) /\ E.nil = Nil)
    \/ Is("rel") /\ UNCHANGED ivars
         /\ TRUE = (/\ TotalOrder(E.us, E.eq, E.lt)
                    /\ \A i, j \in DOMAIN E.us : E.ne[i][j] = ~E.eq[i][j] /\ (E.eq[i][j] => E.hash[i][j])
                    /\ E.set = Cardinality(Set(E.us)) /\ E.uset = E.set)
TraceSpec == IInit /\ l = 1 /\ [][Next]_tv
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1>>)
=============================================================================
