------------------------------ MODULE Classes ------------------------------
(* Input classes, output classes, attachments, and the fields of a result.  *)
EXTENDS Text

InNames == << "STOP", "NUMBER", "WORD", "TYPE", "QUALIF", "ROAD", "STOPWORD", "RR", "DASH", "CITY", "PROV", "NATION",
  "AMPERS", "BOXH", "ORD", "UNITH", "UNITT", "SINGLE", "BUILDH", "MILE", "DOUBLE", "DIRECT", "MIXED", "BUILDT",
  "FRACT", "PCT", "PCH", "QUINT", "QUAD", "PUNCT", "SPACE", "PLACEN", "EMDASH", "SLASH", "ATSIGN", "COMMA" >>
InNums  == << -1, 0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,
  29, 30, 31, 32, 33, 34, 35, 36 >>
InClasses == ToSet(InNames)

OutNames == << "STOP", "BLDNG", "HOUSE", "PREDIR", "QUALIF", "PRETYP", "STREET", "SUFTYP", "SUFDIR", "RR", "EXTRA",
  "CITY", "PROV", "NATION", "POSTAL", "BOXH", "BOXT", "UNITH", "UNITT", "IGNORE" >>
OutNums  == << -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 98 >>
OutClasses == ToSet(OutNames)

AttNames == {"DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF"}

BAD == "BADTOKEN"
InOf(name)  == IF name \in InClasses THEN name ELSE BAD
OutOf(name) == IF name \in OutClasses THEN name ELSE BAD

InNum(name)  == IF name \in InClasses THEN InNums[CHOOSE i \in 1..Len(InNames) : InNames[i] = name] ELSE 99
OutNum(name) == IF name \in OutClasses THEN OutNums[CHOOSE i \in 1..Len(OutNames) : OutNames[i] = name] ELSE 99
InOfNum(n)  == IF \E i \in 1..Len(InNums) : InNums[i] = n THEN InNames[CHOOSE i \in 1..Len(InNums) : InNums[i] = n] ELSE BAD
OutOfNum(n) == IF \E i \in 1..Len(OutNums) : OutNums[i] = n THEN OutNames[CHOOSE i \in 1..Len(OutNums) : OutNums[i] = n] ELSE BAD

\* a comma separated list of names, blanks around each name dropped, empty items skipped
NameItems(t) == LET ps == Split(t, ",")
                    IsB(c) == c = " "
                IN  SelectSeq([i \in 1..Len(ps) |-> Trim(ps[i], IsB)], LAMBDA x : x # <<>>)
InSet(t)  == LET n == NameItems(t) IN {InOf(Str(n[i])) : i \in 1..Len(n)}
AttSet(t) == LET n == NameItems(t) IN {Str(n[i]) : i \in 1..Len(n)} \cap AttNames

\* languages: code and name; anything else is UNKNOWN
LangTab == <<
  <<"ALB","ALBANIAN">>, <<"ARA","ARABIC">>, <<"BAQ","BASQUE">>, <<"BEL","BELARUSIAN">>,
  <<"BET","BELARUSIAN_TRANSCRIBED">>, <<"BEX","BELARUSIAN_TRANSLITERATED">>, <<"BOS","BOSNIAN">>, <<"BOX","BOSNIAN_TRANSLITERATED">>,
  <<"BUL","BULGARIAN">>, <<"BUT","BULGARIAN_TRANSCRIBED">>, <<"BUX","BULGARIAN_TRANSLITERATED">>, <<"CAT","CATALAN">>,
  <<"CHI","CHINESE_MODERN">>, <<"CHT","CHINESE_TRADITIONAL">>, <<"CZE","CZECH">>, <<"CZX","CZECH_TRANSLITERATED">>,
  <<"DAN","DANISH">>, <<"DUT","DUTCH">>, <<"ENG","ENGLISH">>, <<"EST","ESTONIAN">>,
  <<"ESX","ESTONIAN_TRANSLITERATED">>, <<"FIN","FINNISH">>, <<"FRE","FRENCH">>, <<"GER","GERMAN">>,
  <<"GLG","GALICIAN">>, <<"GRE","GREEK">>, <<"GRN","GUARANI">>, <<"GRT","GREEK_TRANSCRIBED">>,
  <<"GRX","GREK_TRANSLITERATED">>, <<"HEB","HEBREW">>, <<"HUN","HUNGARIAN">>, <<"HUX","HUNGARIAN_TRANSLITERATED">>,
  <<"IND","BAHASA_INDONESIA">>, <<"ITA","ITALIAN">>, <<"KOR","KOREAN">>, <<"KOX","KOREAN_TRANSLITERATED">>,
  <<"LAV","LATVIAN">>, <<"LAX","LATVIAN_TRANSLITERATED">>, <<"LIT","LITHUANIAN">>, <<"LIX","LITHUANIAN_TRANSLITERATED">>,
  <<"MAC","MACEDONIAN">>, <<"MAT","MACEDONIAN_TRANSCRIBED">>, <<"MAY","MALAYSIAN">>, <<"MLT","MALTESE">>,
  <<"MLX","MALTESE_TRANSLITERATED">>, <<"MNE","MONTENEGRIN">>, <<"MNX","MONTENEGRIN_TRANSLITERATED">>, <<"MOL","MOLDOVAN">>,
  <<"MOX","MOLDOVAN_TRANSLITERATED">>, <<"NOR","NORWEGIAN">>, <<"POL","POLISH">>, <<"POR","PORTUGUESE">>,
  <<"POX","POLISH_TRANSLITERATED">>, <<"PYN","PINYIN">>, <<"RMX","ROMANIAN_TRANSLITERATED">>, <<"RST","RUSSIAN_TRANSCRIBED">>,
  <<"RUM","ROMANIAN">>, <<"RUS","RUSSIAN">>, <<"RUX","RUSSIAN_TRANSLITERATED">>, <<"SCR","CROATIAN">>,
  <<"SCT","SERBIAN_TRANSCRIBED">>, <<"SCX","SERBIAN_TRANSLITERATED">>, <<"SIX","SLOVENIAN_TRANSLITERATED">>, <<"SLO","SLOVAK">>,
  <<"SLV","SLOVENIAN">>, <<"SLX","SLOVAK_TRANSLITERATED">>, <<"SPA","SPANISH">>, <<"SRB","SERBIAN">>,
  <<"SRX","CROATION_TRANSLITERATED">>, <<"SWE","SWEDISH">>, <<"THA","THAI">>, <<"TKT","TURKISH_TRANSCRIBED">>,
  <<"TUR","TURKISH">>, <<"TUX","TURKISH_TRANSLITERATED">>, <<"UKR","UKRAINIAN">>, <<"UKT","UKRAINIAN_TRANSCRIBED">>,
  <<"UKX","UKRAINIAN_TRANSLITERATED">>, <<"WEL","WELSH">> >>
LangOf(s) == IF \E n \in 1..Len(LangTab) : s \in {LangTab[n][1], LangTab[n][2]}
             THEN LangTab[CHOOSE n \in 1..Len(LangTab) : s \in {LangTab[n][1], LangTab[n][2]}][1] ELSE "UNKNOWN"
LangName(c) == IF \E n \in 1..Len(LangTab) : c = LangTab[n][1] THEN LangTab[CHOOSE n \in 1..Len(LangTab) : c = LangTab[n][1]][2] ELSE "UNKNOWN"

\* output class -> field of the result ("" : dropped)
FieldOf(o) ==
  CASE o = "BLDNG" -> "building"   [] o = "HOUSE" -> "house_num"  [] o = "PREDIR" -> "predir"
    [] o = "QUALIF" -> "qual"      [] o = "PRETYP" -> "pretype"   [] o = "STREET" -> "name"
    [] o = "SUFTYP" -> "suftype"   [] o = "SUFDIR" -> "sufdir"    [] o = "RR" -> "ruralroute"
    [] o \in {"STOP", "EXTRA", BAD} -> "extra"
    [] o = "CITY" -> "city"        [] o = "PROV" -> "prov"        [] o = "NATION" -> "country"
    [] o = "POSTAL" -> "postcode"  [] o \in {"BOXH", "BOXT"} -> "box"
    [] o \in {"UNITH", "UNITT"} -> "unit"
    [] OTHER -> ""

Fields == {"building", "house_num", "predir", "qual", "pretype", "name", "suftype", "sufdir", "ruralroute", "extra",
           "city", "prov", "country", "postcode", "box", "unit"}
=============================================================================
