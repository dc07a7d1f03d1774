------------------------------ MODULE MC_Dates ------------------------------
(* A calendar that is turned over day by day, beside the one that is computed *)
(* from the number of the day; every day's letters are read in the code.      *)
EXTENDS DateFormat, Emit
CONSTANT Size
VARIABLES day, y, m, d, yd, wd, iy, iw, left
vars == <<day, y, m, d, yd, wd, iy, iw, left>>
\* spans <<first year, month, day of it, days>>
Spans == IF Size = "small" THEN {<<2019, 12, 1, 130>>, <<2023, 12, 20, 80>>, <<1899, 12, 25, 75>>, <<1999, 12, 20, 80>>, <<1, 2, 1, 40>>, <<9998, 12, 1, 50>>, <<1969, 12, 20, 30>>, <<2020, 12, 25, 20>>, <<2026, 12, 25, 14>>}
         ELSE {<<y0, 1, 1, 366 * 8>> : y0 \in {1600 + 8 * k : k \in 0..51}} \cup {<<1, 2, 1, 800>>, <<9990, 1, 1, 3200>>}
Init == \E s \in Spans : /\ y = s[1] /\ m = s[2] /\ d = s[3] /\ left = s[4]
                         /\ day = DayOf(y, m, d) /\ yd = YearDay(y, m, d) /\ wd = WeekDay(day)
                         /\ iy = IsoOf(day).y /\ iw = IsoOf(day).w
\* a year has 53 weeks if it starts or ends on a Thursday
Weeks(yy) == IF WeekDay(DayOf(yy, 1, 1)) = 4 \/ WeekDay(DayOf(yy, 12, 31)) = 4 THEN 53 ELSE 52
Next == /\ left > 0 /\ left' = left - 1 /\ day' = day + 1
        /\ wd' = (wd + 1) % 7
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
        /\ yd' = IF y' = y THEN yd + 1 ELSE 1
        /\ IF wd' # 1 THEN UNCHANGED <<iy, iw>>
           ELSE IF iw < Weeks(iy) THEN iw' = iw + 1 /\ iy' = iy ELSE iw' = 1 /\ iy' = iy + 1
Agree == /\ DateOf(day) = [y |-> y, m |-> m, d |-> d, yd |-> yd] /\ DayOf(y, m, d) = day
         /\ WeekDay(day) = wd /\ IsoOf(day) = [y |-> iy, w |-> iw]
\* the seconds of a day, turning with the days
Times == <<0, 1, 43200, 43199, 86399, 3600, 46800, 540, 45296, 39600, 61200, 36061>>
Nanos == <<0, 123456000, 999999999, 100000000, 500000001>>
Zones == <<[off |-> 0, name |-> "UTC", dst |-> FALSE], [off |-> 3600, name |-> "ABC", dst |-> FALSE], [off |-> -34200, name |-> "Q", dst |-> FALSE], [off |-> 50400, name |-> "LINT", dst |-> FALSE], [off |-> -43200, name |-> "Y", dst |-> FALSE]>>
Letters == <<"j|n|y|Y|z|W|o|w|t|L|S", "d.m.Y \\T H:i:s", "D l b M N E F", "a A P f g G h H", "c u U Z O e I r", "l, j. F Y \\a\\t P", "YYYYmmdd", "dDjlNSwzWtLoyY", "aAfgGhHisu", "U", "DATE_FORMAT", "DATETIME_FORMAT", "SHORT_DATE_FORMAT", "MONTH_DAY_FORMAT", "YEAR_MONTH_FORMAT", "TIME_FORMAT", "SHORT_DATETIME_FORMAT">>
Case(k, f) ==
  LET z == Zones[(k % 5) + 1]
      secs == Times[(k % 12) + 1] - z.off
      t == [d |-> day + secs \div 86400, s |-> secs % 86400, n |-> Nanos[(k % 5) + 1]]
      lang == <<"en", "de">>[((k \div 5) % 2) + 1]
  IN Emit([op |-> "hum.formatknown", in |-> [lang |-> lang, t |-> t, loc |-> "", off |-> z.off, name |-> z.name, dst |-> FALSE, fmt |-> f, style |-> k],
           exp |-> SetToSeq({[text |-> s] : s \in TimeTexts(lang, f, t, z, "")})])
CaseOut == \A i \in 1..5 : Case(day + 800000 + i * 3, Letters[((day + 800000 + i * 7) % Len(Letters)) + 1])
=============================================================================
