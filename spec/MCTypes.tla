------------------------------ MODULE MCTypes ------------------------------
(* Spellings generated from what they mean: two spellings have one canonical
   value exactly when they mean the same, a canonical value stands for itself,
   and nothing but spellings of a value is admissible.                        *)
EXTENDS FdbTypes

Z(n) == ZeroPad(Str(n), 2)
Hours == {0, 1, 6, 9, 10, 12, 23}
Mins == {0, 1, 10, 30, 59}
\* <<meaning, spelling>>
TimeToks == UNION {{<<<<h, m>>, s>> : s \in ({Z(h) \o Z(m), Str(h) \o ":" \o Z(m), Z(h) \o ":" \o Str(m), Z(h) \o Z(m) \o "00", Z(h) \o ":" \o Z(m) \o ":00"}
                          \cup (IF m = 0 THEN {Str(h), Z(h)} ELSE {}) \cup (IF h < 10 THEN {Str(h) \o Z(m)} ELSE {}))} :
                    h \in Hours, m \in Mins}
Days == {<<2020, 1, 1>>, <<2020, 2, 29>>, <<2019, 12, 31>>, <<2021, 3, 1>>, <<2021, 11, 1>>, <<2000, 2, 29>>}
DateToks == UNION {{<<d, ShowYmd(d)>>, <<d, ZeroPad(Str(d[1]), 4) \o "-" \o Z(d[2]) \o "-" \o Z(d[3])>>} : d \in Days}
            \cup {<<<<2020, 1, 1>>, "0">>, <<<<2019, 12, 31>>, "-1">>, <<<<2019, 11, 30>>, "-32">>, <<<<2018, 12, 31>>, "-366">>}
Today == <<2020, 1, 1>>
Ints == {0, 1, 9, 10, 100, 1234}
IntToks == UNION {{<<n, Str(n)>>, <<n, "0" \o Str(n)>>, <<n, "+" \o Str(n)>>, <<n, "000" \o Str(n)>>, <<-n, "-" \o Str(n)>>, <<-n, "-0" \o Str(n)>>} : n \in Ints}
\* thousandths
DblToks == UNION {{<<sgn * (1000 * i + f[1]), sg \o i0 \o Str(i) \o "." \o f[2] \o z>> : i0 \in {"", "0"}, z \in {"", "0", "00"}} :
                    sg \in {"", "-"}, sgn \in {1, -1}, i \in {0, 1, 10, 12}, f \in {<<500, "5">>, <<250, "25">>, <<50, "05">>, <<5, "005">>, <<0, "0">>}}
DblOK == {x \in DblToks : (x[1] < 0 /\ Ch(x[2], 1) = "-") \/ (x[1] > 0 /\ Ch(x[2], 1) # "-") \/ x[1] = 0}
IntDbl == UNION {{<<1000 * n, Str(n)>>, <<1000 * n, Str(n) \o ".">>, <<1000 * n, "0" \o Str(n)>>, <<-1000 * n, "-" \o Str(n)>>} : n \in {0, 1, 10, 12}}
Secs == {0, 60, 1800, 3600, 5400, 21600, 86400, 90000}
Mom(t) == {StepShow(t)} \cup (IF t % 60 = 0 THEN {Str(t \div 60) \o "m"} ELSE {}) \cup {Str(t) \o "s"}
          \cup (IF t % 3600 = 0 THEN {Str(t \div 3600) \o "h", Str(t \div 3600), "0" \o Str(t \div 3600)} ELSE {})
          \cup (IF t % 86400 = 0 THEN {Str(t \div 86400) \o "d"} ELSE {})
StepToks == UNION {{<<<<t, t>>, s>> : s \in Mom(t)} : t \in Secs}
            \cup UNION {{<<<<a, b>>, s \o "-" \o r>> : s \in Mom(a), r \in Mom(b)} : <<a, b>> \in {x \in Secs \X Secs : x[1] <= x[2]}}
ExpToks == {<<"0001", "0001">>, <<"0010", "0010">>, <<"1000", "1000">>, <<"abcd", "AbCD">>, <<"abcd", "abcd">>, <<"00ab", "00ab">>, <<"00ab", "00AB">>, <<"0100", "0100">>}
Tokens == [Time |-> TimeToks, Date |-> DateToks, Integer |-> IntToks, Double |-> DblOK \cup IntDbl, Step |-> StepToks, Expver |-> ExpToks]
Bads == [Time |-> {"24", "0060", "2400", "x", "12:60", "1:2:3:4", "12345", "-6"}, Date |-> {"x", "20201301", "20210229", "2020", "2020-13-01", "202001"},
         Integer |-> {"", "x", "1.5", "1x", "-", "+", "--1"}, Double |-> {"", "x", "1.2.3", ".", "-", "1e", "1,5"}, Step |-> {"", "x", "12-6", "-6", "6-", "6y", "h", "1-2-3"}, Expver |-> {}]

VARIABLES ty, tok
Init == ty \in DOMAIN Tokens /\ tok \in Tokens[ty]
Next == UNCHANGED <<ty, tok>>
Spec == Init /\ [][Next]_<<ty, tok>>

C(s) == Canon(ty, s, Today)
Good == C(tok[2]) # Bad
SelfStanding == C(C(tok[2])) = C(tok[2])
SameIffSame == \A o \in Tokens[ty] : (C(o[2]) = C(tok[2])) = (o[1] = tok[1])
CanonAdmissible == Admissible(ty, C(tok[2]), Today)
BadsBad == \A s \in Bads[ty] : C(s) = Bad
=============================================================================
