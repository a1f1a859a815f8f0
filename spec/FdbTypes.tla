------------------------------ MODULE FdbTypes ------------------------------
(* The keyword types: which spellings of a value are admissible, and the one
   canonical value every admissible spelling stands for.  Values are strings,
   taken apart character by character.  Canon is total: inadmissible spellings
   have the result Bad.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Bad == "!"

Ch(s, i) == SubSeq(s, i, i)
Tail1(s) == SubSeq(s, 2, Len(s))
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits == {DigitSeq[i] : i \in 1..10}
DigitVal == [c \in Digits |-> CHOOSE i \in 0..9 : DigitSeq[i + 1] = c]
UpperSeq == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerSeq == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
LowerOf == [c \in {UpperSeq[i] : i \in 1..26} |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
RECURSIVE Lower(_), Num(_), ZeroPad(_, _), StripZeros(_), StripEnd(_), PosOf(_, _, _), Replace(_, _, _)
Lower(s) == IF s = "" THEN "" ELSE LET c == Ch(s, 1) IN (IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c) \o Lower(Tail1(s))
IsNum(s) == s # "" /\ Chars(s) \subseteq Digits
Num(s) == IF s = "" THEN 0 ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
ZeroPad(s, n) == IF Len(s) >= n THEN s ELSE ZeroPad("0" \o s, n)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(Tail1(s)) ELSE s
StripEnd(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN StripEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* position of the first c in s from i on; 0: none
PosOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE PosOf(s, c, i + 1)
Replace(s, a, b) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = a THEN b ELSE Ch(s, 1)) \o Replace(Tail1(s), a, b)
Str(n) == ToString(n)

\* ---- times: hours, HMM, HHMM, HHMMSS, or with colons
TimeHM(h, m, s) == IF h < 24 /\ m < 60 /\ s < 60 THEN ZeroPad(Str(h), 2) \o ZeroPad(Str(m), 2) ELSE Bad
CanonTime(v) ==
    LET c1 == PosOf(v, ":", 1)
        c2 == IF c1 = 0 THEN 0 ELSE PosOf(v, ":", c1 + 1)
        hs == SubSeq(v, 1, c1 - 1)
        ms == IF c2 = 0 THEN SubSeq(v, c1 + 1, Len(v)) ELSE SubSeq(v, c1 + 1, c2 - 1)
        ss == IF c2 = 0 THEN "0" ELSE SubSeq(v, c2 + 1, Len(v))
    IN IF c1 > 0 THEN IF IsNum(hs) /\ IsNum(ms) /\ IsNum(ss) /\ Len(hs) <= 2 /\ Len(ms) <= 2 /\ Len(ss) <= 2 THEN TimeHM(Num(hs), Num(ms), Num(ss)) ELSE Bad
       ELSE IF ~IsNum(v) THEN Bad
       ELSE IF Len(v) <= 2 THEN TimeHM(Num(v), 0, 0)
       ELSE IF Len(v) <= 4 THEN TimeHM(Num(v) \div 100, Num(v) % 100, 0)
       ELSE IF Len(v) = 6 THEN TimeHM(Num(SubSeq(v, 1, 2)), Num(SubSeq(v, 3, 4)), Num(SubSeq(v, 5, 6)))
       ELSE Bad

\* ---- dates: YYYYMMDD, YYYY-MM-DD, or days relative to today (0, -n)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Ymd(y, m, d) == <<y, m, d>>
ValidYmd(x) == x[2] \in 1..12 /\ x[3] \in 1..DaysIn(x[1], x[2])
ShowYmd(x) == ZeroPad(Str(x[1]), 4) \o ZeroPad(Str(x[2]), 2) \o ZeroPad(Str(x[3]), 2)
RECURSIVE Back(_, _)
Back(x, n) == IF n = 0 THEN x
              ELSE IF x[3] > 1 THEN LET k == IF n < x[3] THEN n ELSE x[3] - 1 IN Back(<<x[1], x[2], x[3] - k>>, n - k)
              ELSE IF x[2] > 1 THEN Back(<<x[1], x[2] - 1, DaysIn(x[1], x[2] - 1)>>, n - 1)
              ELSE Back(<<x[1] - 1, 12, 31>>, n - 1)
NoDate == <<0, 0, 0>>
\* the day a spelling stands for
DateOf(v, today) ==
    IF IsNum(v) /\ Len(v) = 8 THEN LET x == Ymd(Num(SubSeq(v, 1, 4)), Num(SubSeq(v, 5, 6)), Num(SubSeq(v, 7, 8))) IN IF ValidYmd(x) THEN x ELSE NoDate
    ELSE IF Len(v) = 10 /\ Ch(v, 5) = "-" /\ Ch(v, 8) = "-" /\ IsNum(SubSeq(v, 1, 4)) /\ IsNum(SubSeq(v, 6, 7)) /\ IsNum(SubSeq(v, 9, 10))
         THEN LET x == Ymd(Num(SubSeq(v, 1, 4)), Num(SubSeq(v, 6, 7)), Num(SubSeq(v, 9, 10))) IN IF ValidYmd(x) THEN x ELSE NoDate
    ELSE IF v = "0" THEN today
    ELSE IF Len(v) \in 2..4 /\ Ch(v, 1) = "-" /\ IsNum(Tail1(v)) THEN Back(today, Num(Tail1(v)))
    ELSE NoDate
MonthNames == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
MonthNum(s) == IF \E i \in 1..12 : MonthNames[i] = s THEN CHOOSE i \in 1..12 : MonthNames[i] = s ELSE 0

\* ---- steps: a moment or a range, with units; canonical in hours where possible
RECURSIVE StepSecs(_, _, _)
UnitSecs == [d |-> 86400, h |-> 3600, m |-> 60, s |-> 1]
\* seconds of one moment, -1 if it is none (digits seen so far, sum so far)
StepSecs(v, dig, sum) ==
    IF v = "" THEN IF dig = "" THEN sum ELSE sum + 3600 * Num(dig)
    ELSE LET c == Ch(v, 1) IN
         IF c \in Digits THEN StepSecs(Tail1(v), dig \o c, sum)
         ELSE IF c \in DOMAIN UnitSecs /\ dig # "" THEN StepSecs(Tail1(v), "", sum + UnitSecs[c] * Num(dig))
         ELSE -1
StepShow(t) == LET h == t \div 3600  m == (t % 3600) \div 60  s == t % 60
               IN IF m = 0 /\ s = 0 THEN Str(h)
                  ELSE (IF h > 0 THEN Str(h) \o "h" ELSE "") \o (IF m > 0 THEN Str(m) \o "m" ELSE "") \o (IF s > 0 THEN Str(s) \o "s" ELSE "")
StepRange(v) ==
    LET p == PosOf(v, "-", 1)
        a == StepSecs(IF p = 0 THEN v ELSE SubSeq(v, 1, p - 1), "", 0)
        b == IF p = 0 THEN a ELSE StepSecs(SubSeq(v, p + 1, Len(v)), "", 0)
    IN IF v = "" \/ p = 1 \/ p = Len(v) \/ a < 0 \/ b < a THEN <<-1, -1>> ELSE <<a, b>>
ShowStep(r) == IF r[1] < 0 THEN Bad ELSE IF r[1] = r[2] THEN StepShow(r[1]) ELSE StepShow(r[1]) \o "-" \o StepShow(r[2])

\* ---- numbers
CanonInt(v) == LET neg == v # "" /\ Ch(v, 1) = "-"
                   d == IF v # "" /\ Ch(v, 1) \in {"-", "+"} THEN Tail1(v) ELSE v
               IN IF ~IsNum(d) THEN Bad ELSE LET n == StripZeros(d) IN (IF neg /\ n # "0" THEN "-" ELSE "") \o n
CanonDouble(v) == LET neg == v # "" /\ Ch(v, 1) = "-"
                      d == IF v # "" /\ Ch(v, 1) \in {"-", "+"} THEN Tail1(v) ELSE v
                      p == PosOf(d, ".", 1)
                      i == IF p = 0 THEN d ELSE SubSeq(d, 1, p - 1)
                      f == IF p = 0 THEN "" ELSE StripEnd(SubSeq(d, p + 1, Len(d)))
                      n == IF i = "" THEN "0" ELSE StripZeros(i)
                  IN IF d \in {"", "."} \/ ~(Chars(i) \subseteq Digits) \/ ~(Chars(f) \subseteq Digits) THEN Bad
                     ELSE LET m == IF f = "" THEN n ELSE n \o "." \o f IN (IF neg /\ m # "0" THEN "-" ELSE "") \o m

\* ---- the canonical value of a spelling
Canon(ty, v, today) ==
    CASE ty = "Default" -> Lower(v)
      [] ty = "Time" -> CanonTime(v)
      [] ty = "Date" -> LET x == DateOf(v, today) IN IF x = NoDate THEN Bad ELSE ShowYmd(x)
      [] ty = "Year" -> LET x == DateOf(v, today) IN IF x = NoDate THEN Bad ELSE Str(x[1])
      [] ty = "Month" -> LET x == DateOf(v, today) IN IF x = NoDate THEN Bad ELSE Str(x[2])
      [] ty = "MonthOfDate" -> LET x == DateOf(v, today) IN IF x = NoDate THEN Bad ELSE ZeroPad(Str(x[2]), 2)
      [] ty = "YearMonth" -> LET x == DateOf(v, today) IN IF x = NoDate THEN Bad ELSE Str(100 * x[1] + x[2])
      [] ty = "ClimateDaily" ->
            LET x == DateOf(v, today)
                m == IF Len(v) >= 5 THEN MonthNum(SubSeq(v, 1, 3)) ELSE 0
            IN IF x # NoDate THEN ZeroPad(Str(100 * x[2] + x[3]), 4)
               ELSE IF m > 0 /\ Ch(v, 4) = "-" /\ IsNum(SubSeq(v, 5, Len(v))) THEN ZeroPad(Str(100 * m + Num(SubSeq(v, 5, Len(v)))), 4)
               ELSE Bad
      [] ty = "ClimateMonthly" ->
            IF MonthNum(v) > 0 THEN Str(MonthNum(v))
            ELSE IF IsNum(v) /\ Len(v) <= 2 THEN (IF Num(v) \in 1..12 THEN Str(Num(v)) ELSE Bad)
            ELSE LET x == DateOf(v, today) IN IF x = NoDate \/ ~IsNum(v) THEN Bad ELSE Str(x[2])
      [] ty = "Expver" -> Lower(v)       \* raw requests name it in full
      [] ty = "Integer" -> CanonInt(v)
      [] ty = "Double" -> CanonDouble(v)
      [] ty = "Step" -> ShowStep(StepRange(v))
      [] ty = "First3" -> IF Len(v) > 3 THEN SubSeq(v, 1, 3) ELSE v
      [] ty = "Grid" -> Replace(v, "/", "+")
      [] ty = "Ignore" -> ""
      [] OTHER -> v

\* archiving accepts only some spellings: the others are refused
Admissible(ty, v, today) ==
    IF v = "" THEN TRUE ELSE
    CASE ty \in {"Time", "Date"} -> Canon(ty, v, today) = v
      [] ty = "Expver" -> ZeroPad(Lower(v), 4) = v
      [] OTHER -> Lower(v) = v /\ Canon(ty, v, today) # Bad

\* a request for a moment or range may also reach other ranges of the index that begin or end with it
StepFor(r, axis) == LET x == StepRange(r)
                    IN {r} \cup {a \in axis \ {""} : LET y == StepRange(a) IN y[1] = x[1] \/ y[2] = x[2] \/ y[1] = x[2] \/ y[2] = x[1]}
=============================================================================
