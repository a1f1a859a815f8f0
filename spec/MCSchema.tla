----------------------------- MODULE MCSchema ------------------------------
(* All small schemas of two database rules (two index rules in the first): how
   every key is stored, and what reads reach.                                 *)
EXTENDS FdbSchema

CONSTANT Deep       \* more schemas
Vals == IF Deep THEN {"a", "b", "c"} ELSE {"a", "b"}
P(k, kind, vs, def) == [kw |-> k, kind |-> kind, vals |-> vs, def |-> def]
Kinds(k) == {P(k, "any", {}, ""), P(k, "in", {"a"}, ""), P(k, "notin", {"a"}, ""), P(k, "optional", {}, "")}
More(k) == Kinds(k) \cup {P(k, "in", {"a", "b"}, ""), P(k, "optional", {}, "a")}
NoTypes == <<>>
D(ps) == [preds |-> ps, types |-> NoTypes, sub |-> <<>>]
I(ps, d) == [preds |-> ps, types |-> NoTypes, sub |-> <<d>>]
B(ps, is) == [preds |-> ps, types |-> NoTypes, sub |-> is]
VARIABLES S, key
vars == <<S, key>>
None == [none |-> TRUE]
Keys == UNION {[ks -> Vals] : ks \in {{"k", "l", "m"}, {"k", "l", "m", "n"}, {"k", "l", "n"}, {"l", "m"}}}
Init == /\ \E p \in Kinds("k"), q \in (IF Deep THEN More("l") ELSE Kinds("l")), r \in Kinds("l"), s \in {P("k", "any", {}, ""), P("k", "notin", {"b"}, "")},
              o \in {P("n", "optional", {}, ""), P("n", "optional", {}, "b"), P("n", "any", {}, ""), P("n", "hidden", {}, "a")} :
            S = [types |-> NoTypes, rules |-> << B(<<p>>, <<I(<<q>>, D(<<P("m", "any", {}, ""), o>>)), I(<<r>>, D(<<P("m", "any", {}, "")>>))>>),
                                                 B(<<s>>, <<I(<<P("l", "any", {}, "")>>, D(<<P("m", "optional", {}, "")>>))>>) >>]
        /\ key = None
Next == key = None /\ key' \in Keys /\ S' = S
Spec == Init /\ [][Next]_vars

T == <<2020, 1, 1>>
Ws == IF key = None THEN {Refused} ELSE Write(S, key, T)
Stored == {w \in Ws : w.ok}
One(k) == [x \in DOMAIN k |-> {k[x]}]
\* there is always an outcome, and at most one place
Decided == Ws # {} /\ Cardinality({w.id : w \in Stored}) <= 1
\* a key that misses nothing is stored one way or not at all
Sure == key # None /\ (\A d \in DOMAIN S.rules : ~Missing(S.rules[d], key) /\ \A i \in DOMAIN S.rules[d].sub : ~Missing(S.rules[d].sub[i], key) /\ ~Missing(S.rules[d].sub[i].sub[1], key)) => Cardinality(Ws) = 1
Merge3(id) == id[3] @@ id[2] @@ id[1]
\* what is stored is the key: nothing dropped, nothing but hidden values added
Faithful == \A w \in Stored : \A x \in DOMAIN key : Has(Merge3(w.id), x) /\ (Merge3(w.id)[x] = key[x] \/ \E i \in DOMAIN S.rules[w.at[2]].sub[w.at[3]].sub[1].preds : S.rules[w.at[2]].sub[w.at[3]].sub[1].preds[i] = P(x, "hidden", {}, "a"))
\* the same request finds it again
RoundTrip == \A w \in Stored : w.id \in Reached(S, (w.id :> w.at), One(key), T, FALSE)
\* certainly reached is possibly reached
MustMay == \A w \in Stored : Reached(S, (w.id :> w.at), One(key), T, FALSE) \subseteq Reached(S, (w.id :> w.at), One(key), T, TRUE)
\* a request for another value of a keyword the rule takes from the key does not find it, unless that keyword is one the
\* request may leave open (optional)
Optional(w, x) == \E r \in {S.rules[w.at[2]], S.rules[w.at[2]].sub[w.at[3]], S.rules[w.at[2]].sub[w.at[3]].sub[1]} : \E i \in DOMAIN r.preds : r.preds[i].kw = x /\ r.preds[i].kind \in {"optional", "hidden"}
Apart == \A w \in Stored : \A x \in DOMAIN key : \A v \in Vals \ {key[x]} :
            ~Optional(w, x) => w.id \notin Reached(S, (w.id :> w.at), [One(key) EXCEPT ![x] = {v}], T, TRUE)
\* two keys stored in one place are the same key, but for values the schema hides
Injective == \A w \in Stored : \A k \in [DOMAIN key -> Vals] : \A u \in Write(S, k, T) : u.ok /\ u.id = w.id => \A x \in DOMAIN key : k[x] = key[x] \/ Optional(w, x)
=============================================================================
