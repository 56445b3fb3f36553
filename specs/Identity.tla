------------------------------ MODULE Identity ------------------------------
(* Identifiers and tags of entities. An entity has an identifier and a tag   *)
(* map of its own; both travel with it wherever a copy of it goes (another   *)
(* object, a variant, a network, a model, a backend and back) and are not    *)
(* shared with any other copy.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES ents,     \* handle -> [uid, tags]; tags: name -> value
          known     \* identifiers given out or asked for so far
ivars == <<ents, known>>
NoUid == "-"        \* a tag map alone has no identifier
EmptyF == [x \in {} |-> x]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

IInit == ents = EmptyF /\ known = {}

\* A new entity; asked for with an identifier it has that one, otherwise one never seen.
Make(h, ask, uid) ==
    /\ IF ask = "fresh" THEN uid \notin known ELSE uid = ask
    /\ ents' = (h :> [uid |-> uid, tags |-> EmptyF]) @@ ents
    /\ known' = known \union {uid}

SetTag(h, n, v) == ents' = [ents EXCEPT ![h].tags = (n :> v) @@ @] /\ UNCHANGED known

\* Reading a tag as a type t; a value <<t, x>> is of type t.
TypeOf(v) == v[1]
Read(h, n, t) ==
    IF n \notin DOMAIN ents[h].tags THEN <<"absent">>
    ELSE IF TypeOf(ents[h].tags[n]) # t THEN <<"badtype">>
    ELSE ents[h].tags[n]

\* The name of an entity: its name tag, or its identifier.
NameOf(e) == IF "name" \in DOMAIN e.tags THEN e.tags["name"] ELSE <<"uid", e.uid>>

Carry(h, to) == ents' = (to :> ents[h]) @@ ents /\ UNCHANGED known
Move(h, to) == ents' = (to :> ents[h]) @@ Without(ents, {h}) /\ UNCHANGED known
\* Drawing identifiers, from any number of threads.
Draw(us) ==
    /\ \A i, j \in DOMAIN us : us[i] = us[j] => i = j
    /\ \A i \in DOMAIN us : us[i] \notin known
    /\ known' = known \union {us[i] : i \in DOMAIN us}
    /\ UNCHANGED ents

(* Identifiers as 16 bytes. *)
Hex == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexByte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
RECURSIVE HexOf(_, _)
HexOf(b, i) == IF i > 16 THEN "" ELSE (IF i \in {5, 7, 9, 11} THEN "-" ELSE "") \o HexByte(b[i]) \o HexOf(b, i + 1)
Text(b) == HexOf(b, 1)
Nil == [i \in 1 .. 16 |-> 0]
\* The counting generator: little-endian numbers.
NumberOf(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] % 64)
\* A strict total order that tells apart exactly different identifiers.
TotalOrder(us, eq, lt) ==
    /\ \A i, j \in DOMAIN us : eq[i][j] <=> us[i] = us[j]
    /\ \A i, j \in DOMAIN us : IF us[i] = us[j] THEN ~lt[i][j] ELSE lt[i][j] # lt[j][i]
    /\ \A i, j, k \in DOMAIN us : lt[i][j] /\ lt[j][k] => lt[i][k]
=============================================================================
