------------------------------ MODULE Message ------------------------------
(* Messages as data, and their text form as a sequence of tokens.            *)
(*   spike  : [k |-> "spike", snd, time, idx : sequence of indexes]          *)
(*   impact : [k |-> "impact", snd, time, pre, post, forcing,                *)
(*             imps : sequence of <<conn, value, type, src, dst>>]           *)
(* Every field is opaque here (64-bit numbers, identifiers and values are    *)
(* decimal or hexadecimal strings): they are compared, never calculated.     *)
EXTENDS Integers, Sequences, SequencesExt

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* The binary form is a faithful copy: same record.  The text form:
Text(m) == IF m.k = "spike" THEN <<m.snd, m.time, Len(m.idx)>> \o m.idx
           ELSE <<m.snd, m.time, m.post, m.pre, m.forcing, Len(m.imps)>> \o Flatten(m.imps)

\* Reading text into a message object that held old: nothing of old is left.
Read(k, s, old) ==
    IF k = "spike" THEN [k |-> k, snd |-> s[1], time |-> s[2], idx |-> SubSeq(s, 4, 3 + s[3])]
    ELSE [k |-> k, snd |-> s[1], time |-> s[2], pre |-> s[4], post |-> s[3], forcing |-> s[5],
          imps |-> [i \in 1..s[6] |-> SubSeq(s, 2 + 5 * i, 6 + 5 * i)]]

Pack(m) == m
Extract(e) == e
Equal(a, b) == a = b
=============================================================================
