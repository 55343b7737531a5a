------------------------------- MODULE Units -------------------------------
(* The units of the calculator: names, symbols, prefixes, exact factors to  *)
(* SI and dimensions, written down from their definitions (BIPM, the 1959   *)
(* international yard and pound, UK and US statutory gallons, IAU) and not  *)
(* from the implementation.                                                 *)
EXTENDS Codes, Rat

(* an exact decimal such as "0.0254" as a rational *)
Q(s) == LET cs == C(s)
            k  == FindCode(cs, 1, 46)
            ds == SelectSeq(cs, LAMBDA c : Digit(c))
            fr == IF k > Len(cs) THEN 0 ELSE Len(cs) - k
        IN TLCEval(RNew(1, BFromDigits([i \in 1..Len(ds) |-> ds[i] - 48], 10), BTen(fr)))

(* dimensions: distance time mass current temperature substance             *)
(*             luminous-intensity angle solid-angle data                    *)
NDim == 10
D0 == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Dim(i, p) == [D0 EXCEPT ![i] = p]
DAdd(a, b) == TLCEval([i \in 1..NDim |-> a[i] + b[i]])
DMul(a, n) == TLCEval([i \in 1..NDim |-> a[i] * n])
DLen == Dim(1, 1)   DTime == Dim(2, 1)  DMass == Dim(3, 1)  DCur == Dim(4, 1)  DTemp == Dim(5, 1)
DSub == Dim(6, 1)   DLum == Dim(7, 1)   DAng == Dim(8, 1)   DSol == Dim(9, 1)  DData == Dim(10, 1)
\*             L   T   M  I  Th N  J  a  s  d
DForce    == << 1, -2, 1, 0, 0, 0, 0, 0, 0, 0>>
DEnergy   == << 2, -2, 1, 0, 0, 0, 0, 0, 0, 0>>
DPower    == << 2, -3, 1, 0, 0, 0, 0, 0, 0, 0>>
DPress    == <<-1, -2, 1, 0, 0, 0, 0, 0, 0, 0>>
DDose     == << 2, -2, 0, 0, 0, 0, 0, 0, 0, 0>>
DAccel    == << 1, -2, 0, 0, 0, 0, 0, 0, 0, 0>>
DVel      == << 1, -1, 0, 0, 0, 0, 0, 0, 0, 0>>
DArea     == << 2,  0, 0, 0, 0, 0, 0, 0, 0, 0>>
DVol      == << 3,  0, 0, 0, 0, 0, 0, 0, 0, 0>>
DFreq     == << 0, -1, 0, 0, 0, 0, 0, 0, 0, 0>>
DCharge   == << 0,  1, 0, 1, 0, 0, 0, 0, 0, 0>>
DVolt     == << 2, -3, 1, -1, 0, 0, 0, 0, 0, 0>>
DOhm      == << 2, -3, 1, -2, 0, 0, 0, 0, 0, 0>>
DSiemens  == <<-2,  3, -1, 2, 0, 0, 0, 0, 0, 0>>
DFarad    == <<-2,  4, -1, 2, 0, 0, 0, 0, 0, 0>>
DHenry    == << 2, -2, 1, -2, 0, 0, 0, 0, 0, 0>>
DWeber    == << 2, -2, 1, -1, 0, 0, 0, 0, 0, 0>>
DTesla    == << 0, -2, 1, -1, 0, 0, 0, 0, 0, 0>>
DKatal    == << 0, -1, 0, 0, 0, 1, 0, 0, 0, 0>>
DLumen    == << 0,  0, 0, 0, 0, 0, 1, 0, 1, 0>>
DLux      == <<-2,  0, 0, 0, 0, 0, 1, 0, 1, 0>>

Pi50 == Q("3.14159265358979323846264338327950288419716939937511")
Gal == Q("0.00454609")
UsGal == Q("0.003785411784")
Lb == Q("0.45359237")
Ls == Q("299792458")

(* b: base unit; n names (the first is the plural, the second the singular),*)
(* y symbols, f factor to SI, d dimensions, p the prefixes it takes, o how  *)
(* an absolute temperature reads                                            *)
U(n, y, f, d, p) == [n |-> n, y |-> y, f |-> f, d |-> d, p |-> p, o |-> "n"]
A1(s) == <<C(s)>>
NoSym == <<>>
OneOf(r, k) == RDiv(r, RInt(k))
Times(r, k) == RMul(r, RInt(k))
Base == TLCEval(<<
  U(<<"meters", "meter", "metres", "metre">>, A1("m"), ROne, DLen, "len"),
  U(<<"lightyears", "lightyear">>, NoSym, Times(Ls, 31557600), DLen, "no"),
  U(<<"lightweeks", "lightweek">>, NoSym, Times(Ls, 604800), DLen, "no"),
  U(<<"lightdays", "lightday">>, NoSym, Times(Ls, 86400), DLen, "no"),
  U(<<"lighthours", "lighthour">>, NoSym, Times(Ls, 3600), DLen, "no"),
  U(<<"lightminutes", "lightminute">>, NoSym, Times(Ls, 60), DLen, "no"),
  U(<<"lightseconds", "lightsecond">>, NoSym, Ls, DLen, "no"),
  U(<<"astronomical units", "astronomical unit">>, A1("au"), Q("149597870700"), DLen, "no"),
  U(<<"parsecs", "parsec">>, A1("pc"), Q("30856775810000000"), DLen, "big"),
  U(<<"inches", "inch">>, A1("in"), Q("0.0254"), DLen, "no"),
  U(<<"feet", "foot">>, A1("ft"), Q("0.3048"), DLen, "no"),
  U(<<"yards", "yard">>, A1("yd"), Q("0.9144"), DLen, "no"),
  U(<<"miles", "mile">>, A1("mi"), Q("1609.344"), DLen, "no"),
  U(<<"nautical miles", "nautical mile">>, A1("nmi"), Q("1852"), DLen, "no"),
  U(<<"seconds", "second">>, A1("s"), ROne, DTime, "small"),
  U(<<"minutes", "minute">>, NoSym, Q("60"), DTime, "no"),
  U(<<"hours", "hour">>, A1("h"), Q("3600"), DTime, "no"),
  U(<<"days", "day">>, NoSym, Q("86400"), DTime, "no"),
  U(<<"weeks", "week">>, NoSym, Q("604800"), DTime, "no"),
  U(<<"months", "month">>, NoSym, OneOf(Times(Q("86400"), 146097), 4800), DTime, "no"),
  U(<<"years", "year">>, A1("yr"), OneOf(Times(Q("86400"), 146097), 400), DTime, "no"),
  U(<<"grays", "gray">>, A1("Gy"), ROne, DDose, "si"),
  U(<<"gees", "gee">>, NoSym, Q("9.80665"), DAccel, "no"),
  U(<<"radians", "radian">>, A1("rad"), ROne, DAng, "no"),
  U(<<"degrees", "degree">>, <<<<176>>, C("deg")>>, OneOf(Pi50, 180), DAng, "no"),
  U(<<"acres", "acre">>, A1("ac"), Times(Q("0.09290304"), 43560), DArea, "no"),
  U(<<"hectares", "hectare">>, A1("ha"), Q("10000"), DArea, "no"),
  U(<<"amperes", "ampere">>, A1("A"), ROne, DCur, "si"),
  U(<<"grams", "gram">>, A1("g"), Q("0.001"), DMass, "gram"),
  U(<<"tonnes", "tonne">>, NoSym, Q("1000"), DMass, "big"),
  U(<<"grains", "grain">>, A1("gr"), OneOf(Lb, 7000), DMass, "no"),
  U(<<"ounces", "ounce">>, A1("oz"), OneOf(Lb, 16), DMass, "no"),
  U(<<"pounds", "pound">>, A1("lb"), Lb, DMass, "no"),
  U(<<"stone", "stone">>, A1("st"), Times(Lb, 14), DMass, "no"),
  U(<<"short tons", "short ton">>, NoSym, Times(Lb, 2000), DMass, "no"),
  U(<<"long tons", "long ton">>, NoSym, Times(Lb, 2240), DMass, "no"),
  U(<<"farads", "farad">>, A1("F"), ROne, DFarad, "si"),
  U(<<"moles", "mole">>, A1("mol"), ROne, DSub, "si"),
  U(<<"katals", "katal">>, A1("kat"), ROne, DKatal, "si"),
  U(<<"bits", "bit">>, A1("bit"), ROne, DData, "data"),
  U(<<"bytes", "byte">>, A1("B"), Q("8"), DData, "data"),
  U(<<"siemens", "siemens">>, A1("S"), ROne, DSiemens, "si"),
  U(<<"volts", "volt">>, A1("V"), ROne, DVolt, "si"),
  U(<<"coulombs", "coulomb">>, A1("C"), ROne, DCharge, "si"),
  U(<<"joules", "joule">>, A1("J"), ROne, DEnergy, "si"),
  U(<<"sieverts", "sievert">>, A1("Sv"), ROne, DDose, "si"),
  U(<<"newtons", "newton">>, A1("N"), ROne, DForce, "si"),
  U(<<"hertz", "hertz">>, A1("Hz"), ROne, DFreq, "si"),
  U(<<"candelas", "candela">>, A1("cd"), ROne, DLum, "si"),
  U(<<"steradians", "steradian">>, A1("sr"), ROne, DSol, "no"),
  U(<<"lux", "lux">>, A1("lx"), ROne, DLux, "si"),
  U(<<"henries", "henry">>, A1("H"), ROne, DHenry, "si"),
  U(<<"lumens", "lumen">>, A1("lm"), ROne, DLumen, "si"),
  U(<<"webers", "weber">>, A1("Wb"), ROne, DWeber, "si"),
  U(<<"teslas", "tesla">>, A1("T"), ROne, DTesla, "si"),
  U(<<"watts", "watt">>, A1("W"), ROne, DPower, "si"),
  U(<<"pascals", "pascal">>, A1("Pa"), ROne, DPress, "si"),
  U(<<"atmospheres", "atmosphere">>, A1("atm"), Q("101325"), DPress, "no"),
  U(<<"pound-force per square inch", "pound-force per square inch">>, A1("psi"), Q("6894.757"), DPress, "no"),
  U(<<"becquerels", "becquerel">>, A1("Bq"), ROne, DFreq, "si"),
  U(<<"ohms", "ohm">>, <<<<937>>>>, ROne, DOhm, "si"),
  [U(<<"kelvin", "kelvin">>, A1("K"), ROne, DTemp, "si") EXCEPT !.o = "k"],
  [U(<<"celsius", "celsius", "deg c">>, <<<<176, 67>>>>, ROne, DTemp, "no") EXCEPT !.o = "c"],
  [U(<<"fahrenheit", "fahrenheit", "deg f">>, <<<<176, 70>>>>, RFrac(5, 9), DTemp, "no") EXCEPT !.o = "f"],
  U(<<"knots", "knot">>, <<C("kn"), C("kt")>>, RFrac(1852, 3600), DVel, "no"),
  U(<<"liters", "liter", "litres", "litre">>, A1("l"), Q("0.001"), DVol, "litre"),
  U(<<"uk fluid ounces", "uk fluid ounce">>, NoSym, OneOf(Gal, 160), DVol, "no"),
  U(<<"uk gills", "uk gill">>, NoSym, OneOf(Gal, 32), DVol, "no"),
  U(<<"uk pints", "uk pint">>, NoSym, OneOf(Gal, 8), DVol, "no"),
  U(<<"uk quarts", "uk quart">>, NoSym, OneOf(Gal, 4), DVol, "no"),
  U(<<"uk gallons", "uk gallon">>, NoSym, Gal, DVol, "no"),
  U(<<"us drams", "us dram">>, NoSym, OneOf(UsGal, 1024), DVol, "no"),
  U(<<"us fluid ounces", "us fluid ounce">>, NoSym, OneOf(UsGal, 128), DVol, "no"),
  U(<<"us gills", "us gill">>, NoSym, OneOf(UsGal, 32), DVol, "no"),
  U(<<"us cups", "us cup">>, NoSym, OneOf(UsGal, 16), DVol, "no"),
  U(<<"us pints", "us pint">>, NoSym, OneOf(UsGal, 8), DVol, "no"),
  U(<<"us quarts", "us quart">>, NoSym, OneOf(UsGal, 4), DVol, "no"),
  U(<<"us gallons", "us gallon">>, NoSym, UsGal, DVol, "no")
>>)
(* names that mean different units in different systems *)
Amb == TLCEval(<<
  [n |-> <<C("tons"), C("ton")>>, y |-> <<>>, us |-> C("short tons"), uk |-> C("long tons")],
  [n |-> <<C("fluid ounces"), C("fluid ounce")>>, y |-> <<C("floz"), C("fl.oz")>>, us |-> C("us fluid ounces"), uk |-> C("uk fluid ounces")],
  [n |-> <<C("pints"), C("pint")>>, y |-> <<C("pt")>>, us |-> C("us pints"), uk |-> C("uk pints")],
  [n |-> <<C("quarts"), C("quart")>>, y |-> <<>>, us |-> C("us quarts"), uk |-> C("uk quarts")],
  [n |-> <<C("gallons"), C("gallon")>>, y |-> <<C("gal")>>, us |-> C("us gallons"), uk |-> C("uk gallons")]
>>)

P(n, y, f, g) == [n |-> C(n), y |-> y, f |-> f, g |-> g]
Pow2(k) == RRaw(1, BPow(BNat(1024), k), BOne)
(* g: the groups of units that take the prefix *)
PfxTab == TLCEval(<<
  P("micro", <<181>>, RTen(-6), {"len", "small", "si", "gram", "litre"}),
  P("milli", C("m"), RTen(-3), {"len", "small", "si", "gram", "litre"}),
  P("kilo", C("k"), RTen(3), {"len", "big", "si", "gram", "data"}),
  P("mega", C("M"), RTen(6), {"big", "si", "data"}),
  P("atto", C("a"), RTen(-18), {"len", "small", "si", "gram", "litre"}),
  P("femto", C("f"), RTen(-15), {"len", "small", "si", "gram", "litre"}),
  P("pico", C("p"), RTen(-12), {"len", "small", "si", "gram", "litre"}),
  P("nano", C("n"), RTen(-9), {"len", "small", "si", "gram", "litre"}),
  P("giga", C("G"), RTen(9), {"big", "si", "data"}),
  P("tera", C("T"), RTen(12), {"big", "si", "data"}),
  P("peta", C("P"), RTen(15), {"big", "si", "data"}),
  P("exa", C("E"), RTen(18), {"big", "si", "data"}),
  P("zetta", C("Z"), RTen(21), {"data"}),
  P("yotta", C("Y"), RTen(24), {"data"}),
  P("centi", C("c"), RTen(-2), {"len", "litre"}),
  P("kibi", C("ki"), Pow2(1), {"data"}),
  P("mebi", C("Mi"), Pow2(2), {"data"}),
  P("gibi", C("Gi"), Pow2(3), {"data"}),
  P("tebi", C("Ti"), Pow2(4), {"data"}),
  P("pebi", C("Pi"), Pow2(5), {"data"}),
  P("exbi", C("Ei"), Pow2(6), {"data"}),
  P("zebi", C("Zi"), Pow2(7), {"data"}),
  P("yobi", C("Yi"), Pow2(8), {"data"})
>>)

PrefixOn(p, b) == Base[b].p \in PfxTab[p].g
NB == Len(Base)
NP == Len(PfxTab)
UnitOf(p, b) == [f |-> IF p = 0 THEN Base[b].f ELSE RMul(PfxTab[p].f, Base[b].f), d |-> Base[b].d, o |-> Base[b].o]
(* every spelling, with the unit it denotes *)
BaseNames(b) == {C(Base[b].n[j]) : j \in 1..Len(Base[b].n)}
BaseSyms(b)  == {Base[b].y[j] : j \in 1..Len(Base[b].y)}
NamePairs == UNION {{<<n, UnitOf(0, b)>> : n \in BaseNames(b)} : b \in 1..NB}
             \cup UNION {UNION {{<<PfxTab[p].n \o n, UnitOf(p, b)>> : n \in BaseNames(b)} : p \in {q \in 1..NP : PrefixOn(q, b)}} : b \in 1..NB}
SymPairs ==  UNION {{<<n, UnitOf(0, b)>> : n \in BaseSyms(b)} : b \in 1..NB}
             \cup UNION {UNION {{<<PfxTab[p].y \o n, UnitOf(p, b)>> : n \in BaseSyms(b)} : p \in {q \in 1..NP : PrefixOn(q, b)}} : b \in 1..NB}
FnOf(pairs) == TLCEval(LET ks == TLCEval({p[1] : p \in pairs}) IN [k \in ks |-> (CHOOSE p \in pairs : p[1] = k)[2]])
NameTab == FnOf(TLCEval(NamePairs))
SymTab  == FnOf(TLCEval(SymPairs))
ASSUME UnitNamesUnambiguous == Cardinality(DOMAIN NameTab) = Cardinality(NamePairs)
ASSUME UnitSymbolsUnambiguous == Cardinality(DOMAIN SymTab) = Cardinality(SymPairs)
AmbNames == TLCEval(UNION {{Amb[a].n[j] : j \in 1..Len(Amb[a].n)} : a \in 1..Len(Amb)})
AmbSyms  == TLCEval(UNION {{Amb[a].y[j] : j \in 1..Len(Amb[a].y)} : a \in 1..Len(Amb)})
MaxUnitLen == 27

(* an ambiguous name in the most preferred of the systems that have it *)
AmbUnit(k, pref) ==
  LET a == CHOOSE x \in 1..Len(Amb) : (\E j \in 1..Len(Amb[x].n) : Amb[x].n[j] = k) \/ (\E j \in 1..Len(Amb[x].y) : Amb[x].y[j] = k)
      us == SelectSeq(pref, LAMBDA s : s \in {"us", "uk"})
  IN NameTab[IF us[1] = "us" THEN Amb[a].us ELSE Amb[a].uk]

UnitChar(c) == Alpha(c) \/ c = 95
(* the unit spelt at position i of t: <<length, unit>>, length 0 if none *)
RECURSIVE UnitAtLen(_, _, _, _)
UnitAtLen(t, i, n, pref) ==
  IF n = 0 THEN <<0>>
  ELSE IF i + n <= Len(t) /\ UnitChar(t[i + n]) THEN UnitAtLen(t, i, n - 1, pref)
  ELSE LET raw == SubSeq(t, i, i + n - 1)
           low == TLCEval([j \in 1..n |-> Fold(raw[j])])
       IN IF low \in DOMAIN NameTab THEN <<n, NameTab[low]>>
          ELSE IF low \in AmbNames THEN <<n, AmbUnit(low, pref)>>
          ELSE IF raw \in DOMAIN SymTab THEN <<n, SymTab[raw]>>
          ELSE IF raw \in AmbSyms THEN <<n, AmbUnit(raw, pref)>>
          ELSE UnitAtLen(t, i, n - 1, pref)
UnitAt(t, i, pref) == UnitAtLen(t, i, BMin(MaxUnitLen, Len(t) + 1 - i), pref)
=============================================================================
