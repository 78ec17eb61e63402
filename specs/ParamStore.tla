----------------------------- MODULE ParamStore -----------------------------
(* Typed parameter sections: six independent name->value stores, copies.       *)
(* Property P02 (and the "equal and independent copies" part of P11).          *)
(* Values are opaque: a sequence of text tokens (one token for scalar kinds).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"int","double","string","ints","doubles","strings"}
Empty == [x \in {} |-> <<>>]
VARIABLE st        \* object id -> kind -> (name -> value)
vars == <<st>>
Put(f, k, v) == (k :> v) @@ f
Fresh == [k \in Kinds |-> Empty]
Toset(q) == {q[i] : i \in 1..Len(q)}

Init == st = [x \in {} |-> Fresh]
Ops == {"new","copy","assign","drop","set","get","keys"}
Enabled(e) == CASE e.op = "new" -> TRUE
                [] e.op \in {"copy","assign"} -> e.from \in DOMAIN st /\ (e.op = "assign" => e.o \in DOMAIN st)
                [] OTHER -> e.o \in DOMAIN st
Do(e) == CASE e.op = "new" -> st' = Put(st, e.o, Fresh)
           [] e.op \in {"copy","assign"} -> st' = Put(st, e.o, st[e.from])
           [] e.op = "drop" -> st' = [x \in DOMAIN st \ {e.o} |-> st[x]]
           [] e.op = "set" -> st' = [st EXCEPT ![e.o][e.k] = Put(@, e.n, e.v)]
           [] OTHER -> UNCHANGED st
ResOK(e) == CASE e.op = "get" -> IF e.n \in DOMAIN st[e.o][e.k]
                                 THEN e.r.x = "ok" /\ e.r.v = st[e.o][e.k][e.n]
                                 ELSE e.r.x = "Unknown"
              [] e.op = "keys" -> /\ e.r.x = "ok" /\ e.r.sorted
                                  /\ Toset(e.r.v) = DOMAIN st[e.o][e.k]
                                  /\ Len(e.r.v) = Cardinality(DOMAIN st[e.o][e.k])
              [] OTHER -> e.r.x = "ok"
(* design invariant: objects never share state - checked as an action property *)
Isolated(e) == \A x \in DOMAIN st : (x # e.o /\ x \in DOMAIN st') => st'[x] = st[x]
KindIsolated(e) == e.op = "set" => \A k \in Kinds : k # e.k => st'[e.o][k] = st[e.o][k]
=============================================================================
