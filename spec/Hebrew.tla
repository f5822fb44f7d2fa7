------------------------------- MODULE Hebrew -------------------------------
(***************************************************************************)
(* Hebrew numerals: 400s, then one letter each for the remaining hundreds, *)
(* the tens and the ones; 15 and 16 are written 9+6 and 9+7 with a         *)
(* gershayim between; a lone letter is wrapped.                            *)
(***************************************************************************)
EXTENDS BigNat, Outcome

Gershayim == \h05F4
Geresh    == \h05F3
Tav       == \h05EA
HebrewHundreds == <<\h05E7, \h05E8, \h05E9>>                      \* 100 200 300
HebrewTens == <<\h05D9, \h05DB, \h05DC, \h05DE, \h05E0, \h05E1, \h05E2, \h05E4, \h05E6>>
HebrewOnes == <<\h05D0, \h05D1, \h05D2, \h05D3, \h05D4, \h05D5, \h05D6, \h05D7, \h05D8>>

Letter(tbl, d) == IF d = 0 THEN <<>> ELSE <<tbl[d]>>

HebrewOutcome(n) ==
    IF IsZero(n) THEN NoZero
    ELSE LET hl == DivMod(n, 100)            \* hundreds, last two digits
             fr == DivMod(hl[1], 4)          \* four hundreds, rest of the hundreds
             l  == hl[2]
             large == Cmp(fr[1], FromInt(LongLimit)) > 0
             head == Repeat(<<Tav>>, ToInt(fr[1])) \o Letter(HebrewHundreds, fr[2])
             low == IF l = 15 THEN <<HebrewOnes[9], Gershayim, HebrewOnes[6]>>
                    ELSE IF l = 16 THEN <<HebrewOnes[9], Gershayim, HebrewOnes[7]>>
                    ELSE Letter(HebrewTens, l \div 10) \o Letter(HebrewOnes, l % 10)
         IN  IF large THEN Long
             ELSE LET t == head \o low IN
                  Ok(IF Len(t) = 1 THEN <<Geresh>> \o t \o <<Gershayim>> ELSE t)
=============================================================================
