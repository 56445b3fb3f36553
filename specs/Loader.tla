------------------------------- MODULE Loader -------------------------------
(* Backends loaded from libraries. A loader only makes backends; a backend   *)
(* is one's own as long as one holds it, whatever happens to the loader, to  *)
(* other loaders and to other backends of the same library.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES loaders,  \* living loaders
          bes,      \* backend -> [uid, kind, step]
          used,     \* identifiers of backends so far
          eps       \* endpoint of a backend's bus -> [b, kind]; endpoints may outlive their backend
lvars == <<loaders, bes, used, eps>>
EmptyF == [x \in {} |-> x]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* what there is under a path: a backend library, another library, something else or nothing
\* (ST and MT have the same file name in different directories; STB spells ST differently, STC is a copy of it, MTD is
\* written without the prefix and suffix of libraries)
KindOf(p) == CASE p \in {"ST", "STB", "STC"} -> "ST" [] p \in {"MT", "MTD"} -> "MT" [] p = "LIB" -> "library" [] OTHER -> "none"
IsBackend(p) == KindOf(p) \in {"ST", "MT"}

LInit == loaders = {} /\ bes = EmptyF /\ used = {} /\ eps = EmptyF
NewLoader(x) == loaders' = loaders \union {x} /\ UNCHANGED <<bes, used, eps>>
DropLoader(x) == x \in loaders /\ loaders' = loaders \ {x} /\ UNCHANGED <<bes, used, eps>>
\* a fresh backend of the library's kind, or a failure that changes nothing
Load(x, p, b, uid, res) ==
    /\ x \in loaders
    /\ res = IF IsBackend(p) THEN "ok" ELSE "fail"
    /\ IF res = "ok" THEN /\ uid \notin used
                          /\ bes' = (b :> [uid |-> uid, kind |-> KindOf(p), step |-> 0]) @@ bes
                          /\ used' = used \union {uid}
       ELSE UNCHANGED <<bes, used>>
    /\ UNCHANGED <<loaders, eps>>
Ask(p, res) == res = (CASE IsBackend(p) -> "yes" [] KindOf(p) = "library" -> "no" [] OTHER -> "fail") /\ UNCHANGED lvars
Run(b, n) == b \in DOMAIN bes /\ bes' = [bes EXCEPT ![b].step = @ + n] /\ UNCHANGED <<loaders, used, eps>>
Drop(b) == b \in DOMAIN bes /\ bes' = Without(bes, {b}) /\ UNCHANGED <<loaders, used, eps>>
\* an endpoint of a backend's bus, subscribed to itself: what it sends arrives as long as the bus is there to carry it
NewEp(b, e) == b \in DOMAIN bes /\ e \notin DOMAIN eps /\ eps' = (e :> [b |-> b, kind |-> bes[b].kind]) @@ eps /\ UNCHANGED <<loaders, bes, used>>
Arrive(e) == IF eps[e].b \in DOMAIN bes THEN 1 ELSE 0
Use(e, got) == e \in DOMAIN eps /\ got = Arrive(e) /\ UNCHANGED lvars
DropEp(e) == e \in DOMAIN eps /\ eps' = Without(eps, {e}) /\ UNCHANGED <<loaders, bes, used>>
=============================================================================
