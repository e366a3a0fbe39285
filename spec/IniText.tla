------------------------------- MODULE IniText ------------------------------
(* What the lines of a meter's ini file say.                                 *)
EXTENDS Text
\* the part of a line in front of a // that is not inside quotes; tabs outside quotes are blanks
IniSlash == <<cSLASH, cSLASH>>
IniBody(l) ==
  LET q1 == FirstIn(l, {cQUOTE}, 1)
      q2 == FirstIn(l, {cQUOTE}, q1 + 1)
      c == Find(l, IniSlash)
  IN IF c = 0 THEN l
     ELSE IF c < q1 \/ q2 > Len(l) THEN Upto(l, c - 1)
     ELSE LET d == FindFrom(l, IniSlash, q2) IN IF d = 0 THEN l ELSE Upto(l, d - 1)
IniPlain(l) == Strip(IniBody(l))
IniVal(s) ==
  LET v == Strip(s) IN
  IF v = <<84,82,85,69>> THEN <<"b", TRUE>>
  ELSE IF v = <<70,65,76,83,69>> THEN <<"b", FALSE>>
  ELSE IF v # <<>> /\ v[1] = cQUOTE THEN <<"s", SubSeq(v, 2, FirstIn(v, {cQUOTE}, 2) - 1)>>
  ELSE IF IsDecimal(v) THEN <<"n", Decimal(v)>>
  ELSE <<"s", v>>
IniLineKind(l) == LET p == IniPlain(l) IN
  IF p = <<>> THEN "skip" ELSE IF p[1] = cLBR THEN "section" ELSE "key"
IniSectionOf(l) == LET p == IniPlain(l) IN SubSeq(p, 2, FirstIn(p, {cRBR}, 1) - 1)
IniKeyOf(l) == LET x == Strip(Before(IniPlain(l), <<cEQ>>)) IN IF x # <<>> /\ x[1] = cDOLLAR THEN Tail(x) ELSE x
IniValueOf(l) == IniVal(After(IniPlain(l), <<cEQ>>))
=============================================================================
