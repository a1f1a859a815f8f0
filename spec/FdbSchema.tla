----------------------------- MODULE FdbSchema -----------------------------
(* How a schema splits field keys, on write and on read.

   A schema is [types, rules]; a database rule [preds, types, sub], its index
   rules [preds, types, sub] and their one datum rule [preds, types].  A
   predicate is [kw, kind, vals, def]; kind is one of
     any       every value (the keyword is mandatory)
     in        one of vals
     notin     none of vals
     optional  every value, and the keyword may be missing (def on read)
     hidden    never asked for; takes the value def                          *)
EXTENDS FdbTypes

Has(f, x) == x \in DOMAIN f
Alias == [t \in {"Month", "MonthOfDate"} |-> "month"] @@ [t \in {"Year"} |-> "year"]

\* the type a keyword has in a rule nested in others: the innermost declaration counts
TypeIn(chain, kw) == LET ds == SelectSeq(chain, LAMBDA r : Has(r.types, kw)) IN IF ds = <<>> THEN "Default" ELSE ds[1].types[kw]
NameIn(chain, kw) == LET t == TypeIn(chain, kw) IN IF Has(Alias, t) THEN Alias[t] ELSE kw

\* predicates that ask for particular values, and whether a key satisfies them
ValueOK(p, v) == CASE p.kind = "in" -> v \in p.vals [] p.kind = "notin" -> v \notin p.vals [] OTHER -> TRUE
Selects(rule, key) == \A i \in DOMAIN rule.preds : LET p == rule.preds[i] IN
    CASE p.kind = "in" -> Has(key, p.kw) /\ key[p.kw] \in p.vals
      [] p.kind = "notin" -> ~Has(key, p.kw) \/ key[p.kw] \notin p.vals
      [] OTHER -> TRUE
Missing(rule, key) == \E i \in DOMAIN rule.preds : rule.preds[i].kind \in {"any", "in", "notin"} /\ ~Has(key, rule.preds[i].kw)

\* ------------------------------------------------------------------ write
\* canonical part of a key for one rule: a function of (aliased) keyword; empty values are left out
WVal(chain, p, key, today) ==
    LET v == IF p.kind = "hidden" THEN p.def ELSE IF Has(key, p.kw) THEN key[p.kw] ELSE ""
    IN IF v = "" THEN "" ELSE Lower(Canon(TypeIn(chain, p.kw), v, today))
Part(chain, key, today) ==
    LET ps == chain[1].preds
        vals == [i \in DOMAIN ps |-> WVal(chain, ps[i], key, today)]
    IN [n \in {NameIn(chain, ps[i].kw) : i \in {j \in DOMAIN ps : vals[j] # ""}} |->
            LET is == {i \in DOMAIN ps : NameIn(chain, ps[i].kw) = n} IN vals[CHOOSE i \in is : \A j \in is : j <= i]]
BadPart(chain, key, today) == \E i \in DOMAIN chain[1].preds : WVal(chain, chain[1].preds[i], key, today) = Bad
Names(chain) == {NameIn(chain, chain[1].preds[i].kw) : i \in DOMAIN chain[1].preds}
NotTidy(chain, key, today) == \E i \in DOMAIN chain[1].preds : LET kw == chain[1].preds[i].kw IN Has(key, kw) /\ ~Admissible(TypeIn(chain, kw), key[kw], today)

\* the index rules by which a database is searched: on write as on read those of the first rule its key fits
RuleOf(S, dbkey) == CHOOSE d \in DOMAIN S.rules : Selects(S.rules[d], dbkey) /\ \A e \in DOMAIN S.rules : Selects(S.rules[e], dbkey) => d <= e

Refused == [ok |-> FALSE]
Chain(S, d, i) == <<S.rules[d].sub[i].sub[1], S.rules[d].sub[i], S.rules[d], S>>
\* the outcomes archiving a key may have.  The first rule whose values fit decides; one that fits but misses a mandatory
\* keyword may be refused at once or passed over.
\* (r: position of the database rule tried, d: of the rule whose index rules apply, i: position of the index rule; 0: none yet)
RECURSIVE WriteFrom(_, _, _, _, _, _)
WriteFrom(S, key, today, r, d, i) ==
    IF r > Len(S.rules) THEN {Refused}
    ELSE LET B == S.rules[r] IN
      IF i = 0 THEN
        IF ~Selects(B, key) THEN WriteFrom(S, key, today, r + 1, 0, 0)
        ELSE IF Missing(B, key) THEN {Refused} \cup WriteFrom(S, key, today, r + 1, 0, 0)
        ELSE IF BadPart(<<B, S>>, key, today) THEN {Refused}
        ELSE WriteFrom(S, key, today, r, RuleOf(S, Part(<<B, S>>, key, today)), 1)
      ELSE LET R == S.rules[d] IN
        IF i > Len(R.sub) THEN WriteFrom(S, key, today, r + 1, 0, 0)
        ELSE LET I == R.sub[i]  D == I.sub[1]  ci == <<I, R, S>>  cd == <<D, I, R, S>> IN
        IF ~Selects(I, key) THEN WriteFrom(S, key, today, r, d, i + 1)
        ELSE IF Missing(I, key) THEN {Refused} \cup WriteFrom(S, key, today, r, d, i + 1)
        ELSE IF BadPart(ci, key, today) THEN {Refused}
        ELSE IF ~Selects(D, key) THEN WriteFrom(S, key, today, r, d, i + 1)
        ELSE IF Missing(D, key) THEN {Refused} \cup WriteFrom(S, key, today, r, d, i + 1)
        ELSE IF BadPart(cd, key, today) THEN {Refused}
        ELSE IF ~(DOMAIN key \subseteq Names(<<B, S>>) \cup Names(ci) \cup Names(cd)) THEN {Refused}
        ELSE IF NotTidy(<<R, S>>, key, today) \/ NotTidy(ci, key, today) \/ NotTidy(cd, key, today) THEN {Refused}
        ELSE {[ok |-> TRUE, id |-> <<Part(<<B, S>>, key, today), Part(ci, key, today), Part(cd, key, today)>>, at |-> <<r, d, i>>]}
Write(S, key, today) == WriteFrom(S, [x \in DOMAIN key |-> Lower(key[x])], today, 1, 0, 0)      \* case means nothing

\* ------------------------------------------------------------------ read
\* Values a request asks for of one keyword.  A missing optional keyword means its default, or no value at all.  At the last
\* level (axes known), an optional keyword for which the fields of the index have none of the values asked for means no value.
NoAxes == [none |-> TRUE]
RVals(chain, p, req, axes, today, may) ==
    LET ty == TypeIn(chain, p.kw)
        n == NameIn(chain, p.kw)
        given == p.kind # "hidden" /\ Has(req, p.kw)
        raw == IF p.kind = "hidden" THEN {p.def} ELSE IF given THEN req[p.kw] ELSE IF p.kind = "optional" THEN {p.def, ""} ELSE {}
        ok == {v \in raw : ValueOK(p, v)}
        all == UNION {IF v = "" THEN {""} ELSE LET c == Lower(Canon(ty, v, today)) IN IF may /\ ty = "Step" /\ Has(axes, n) THEN {c} \cup StepFor(c, axes[n]) ELSE {c} : v \in ok}
    IN IF ty = "Ignore" THEN (IF raw = {} THEN {} ELSE {""})
       ELSE IF given /\ p.kind = "optional" /\ Has(axes, n) /\ all \cap axes[n] = {} THEN {""}
       ELSE all
\* is a part of a stored key among those a request asks for by this rule?
Wanted(chain, part, req, axes, today, may) ==
    LET ps == chain[1].preds
        val(n) == IF Has(part, n) THEN part[n] ELSE ""
    IN /\ DOMAIN part \subseteq Names(chain)
       /\ \A i \in DOMAIN ps : val(NameIn(chain, ps[i].kw)) \in RVals(chain, ps[i], req, axes, today, may)

\* the values the fields of an index have, per keyword
AxesOf(fields, id, names) == LET g == {f[3] : f \in {x \in fields : x[1] = id[1] /\ x[2] = id[2]}}
                      IN IF g = {} THEN NoAxes ELSE [n \in names |-> {IF Has(x, n) THEN x[n] ELSE "" : x \in g}]
\* The fields a request reaches, each given with the place of the rule it was archived by.  Certainly: those whose values it
\* asks for by that rule.  Possibly: also those another rule that names the same keywords leads to, and equivalents of steps.
Reached(S, by, req, today, may) ==
    {f \in DOMAIN by :
        /\ \E d \in DOMAIN S.rules : (may \/ d = by[f][1]) /\ Wanted(<<S.rules[d], S>>, f[1], req, NoAxes, today, may)
        /\ LET d == RuleOf(S, f[1])  R == S.rules[d] IN
           \E i \in DOMAIN R.sub : /\ may \/ i = by[f][3]
                                   /\ Wanted(<<R.sub[i], R, S>>, f[2], req, NoAxes, today, may)
                                   /\ Wanted(Chain(S, d, i), f[3], req, AxesOf(DOMAIN by, f, Names(Chain(S, d, i))), today, may)}
=============================================================================
