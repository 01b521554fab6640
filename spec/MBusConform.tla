---------------------------- MODULE MBusConform -----------------------------
(***************************************************************************)
(* What the specification says about one observed call of the library.     *)
(* A trace line is [op, a (integer arguments), in (bytes), st (outcome),   *)
(* rest (unread bytes), ev (decoded items in wire order)].                 *)
(***************************************************************************)
EXTENDS MBusParser

Ok(ev, rest) == [st |-> "ok", rest |-> rest, ev |-> ev]
Err == [st |-> "err", rest |-> 0, ev |-> <<>>]

Fin(m, ev) == IF AppOk(m) THEN Ok(ev, m.ign) ELSE Err

\* the application machine started in the middle, for the public sub-parsers
MsgRun(in) == LET m == AppRun(AppInit, in) IN Fin(m, MsgEvs(m))
FrameRun(in) == LET m == AppRun(AppStart("REC", FALSE), in) IN Fin(m, BodyEvs(m))
RecRun(in) == LET m == AppRun(AppStart("REC", TRUE), in) IN
              IF m.ph = "DONE" THEN Ok(m.body, m.ign) ELSE Err
ErrRun(in) == LET m == AppRun([AppStart("ERR", FALSE) EXCEPT !.after = "IGN"], in) IN Fin(m, BodyEvs(m))
SelRun(in) == LET m == AppRun(AppStart("SEL", FALSE), in) IN
              IF AppOk(m) THEN Ok(IF in = <<>> THEN <<E("App", "-", <<>>)>> ELSE BodyEvs(m), m.ign) ELSE Err
DibRun(in) == LET m == AppRun([AppStart("REC", TRUE) EXCEPT !.form = "DIB"], in) IN
              IF m.ph = "DONE" THEN Ok(DibEvs(m.dif, m.difes, m.obis), m.ign) ELSE Err
VibRun(in) == LET m == AppRun([AppStart("VIF", TRUE) EXCEPT !.form = "VIB"], in) IN
              IF m.ph = "DONE" THEN Ok(VibEvs(m), m.ign) ELSE Err
HdrRun(in, n) ==
  IF Len(in) < n THEN Err
  ELSE LET m == AppRun([AppInit EXCEPT !.ph = "HDR", !.need = n, !.form = "IGN"], SubSeq(in, 1, n)) IN
       IF m.ph = "REJ" THEN Err ELSE Ok(m.hdr, Len(in) - n)

\* a field of n bytes
Fixed(in, n, ok, ev) == IF Len(in) >= n /\ ok THEN Ok(<<ev>>, Len(in) - n) ELSE Err
DateRun(in, n, D(_)) ==
  IF Len(in) < n THEN Err ELSE LET d == D(SubSeq(in, 1, n)) IN Fixed(in, n, d.ok, Dat(d.s, d.n))
First(in, n) == SubSeq(in, 1, IF n < Len(in) THEN n ELSE Len(in))
TextRun(in) ==
  IF in = <<>> \/ Len(in) < in[1] + 1 THEN Err
  ELSE LET u == Utf8(SubSeq(in, 2, in[1] + 1)) IN
       IF u[1] THEN Ok(<<E("Vif", "PlainText", Rev(u[2]))>>, Len(in) - in[1] - 1) ELSE Err

PktRun(in) == LET x == LinkRun(in) IN IF LinkOk(x) THEN Ok(LinkEvs(x), 0) ELSE Err

\* error texts (C28): contexts 0..15 directly, 16.. through the standard route
LabelNames == <<"alpha", "beta", "gamma", "delta">>
ExpectedText == <<"thing", "`lit`", "`c`", "other">>
\* texts a report may stumble over, for contexts 32..63
OddText == <<"", " ", "{}", "&&", "invalid", "alpha ", "a: b", "........................................">>
OddKind == <<"Label", "ComputedLabel", "Expected", "Assertion">>
CtxOf(k) == CASE k < 4  -> <<"Label", LabelNames[k + 1]>>
              [] k < 8  -> <<"ComputedLabel", "computed " \o ToString(k - 4)>>
              [] k < 12 -> <<"Expected", ExpectedText[k - 7]>>
              [] k < 16 -> <<"Assertion", LabelNames[k - 11]>>
              [] k < 20 -> <<"Label", LabelNames[k - 15]>>
              [] k >= 32 -> <<OddKind[(k - 24) \div 8], OddText[(k % 8) + 1]>>
              [] OTHER  -> <<"Expected", "thing">>
\* the text of an error with these contexts (<<kind, text>>, innermost first)
LineOf(c) == CASE c[1] \in {"Label", "ComputedLabel"} -> "invalid " \o c[2]
               [] c[1] = "Expected" -> "expected " \o c[2]
               [] OTHER -> "assertion failed: " \o c[2]
\* the causes: their text, and its lines with the blanks in front counted
Causes == <<"the cause", "two\nlines", "", "ends\n", "  indented", "invalid alpha", "-">>
CauseText(k) == Causes[k]
CauseParts == << <<<<"the cause", 0>>>>, <<<<"two", 0>>, <<"lines", 0>>>>, <<<<"", 0>>>>, <<<<"ends", 0>>, <<"", 0>>>>,
                   <<<<"indented", 2>>>>, <<<<"invalid alpha", 0>>>>, <<<<"-", 0>>>>>>
CauseLines(k) == CauseParts[k]
ErrText(cs, cause, clines) ==
  LET labels(i) == Cardinality({j \in 1..i : cs[j][1] /= "Expected"})
      ctx(i) == <<E("Ctx", cs[i][1], <<>>), E("CtxText", cs[i][2], <<>>)>>
      lines == [i \in 1..Len(cs) |-> E("Line", LineOf(cs[i]), <<IF labels(i) = 0 THEN 0 ELSE labels(i) - 1>>)]
  IN Cat(ctx, [i \in 1..Len(cs) |-> i], 1)
     \o <<E("Cause", cause, <<>>), E("Term", "", <<1>>)>>
     \o [i \in 1..Len(clines) |-> E("Line", clines[i][1], <<clines[i][2]>>)] \o lines
ErrTextRun(a, in) == Ok(IF a[1] = 0 THEN ErrText([i \in 1..Len(in) |-> CtxOf(in[i])], "-", <<>>)
                        ELSE ErrText([i \in 1..Len(in) |-> CtxOf(in[i])], CauseText(a[1]), CauseLines(a[1])), 0)
\* an error of the packet parser itself: its text follows from its contexts
JudgeErrPkt(line) ==
  LET n == Len(SelectSeq(line.ev, LAMBDA x : x.e = "Ctx"))
      cause == SelectSeq(line.ev, LAMBDA x : x.e = "Cause")[1].s
  IN line.st = "err" => line.ev = ErrText([i \in 1..n |-> <<line.ev[2 * i - 1].s, line.ev[2 * i].s>>], cause,
                                            IF cause = "-" THEN <<>> ELSE <<<<cause, 0>>>>)

\* telegram files (C26): trimmed text, hexadecimal tokens between single spaces.
\* White space is Unicode's, as bytes of UTF-8 (the reader trims characters).
White == {9, 10, 11, 12, 13, 32}
White2 == {<<194, 133>>, <<194, 160>>}
White3 == {<<225, 154, 128>>, <<226, 128, 168>>, <<226, 128, 169>>, <<226, 128, 175>>, <<226, 129, 159>>,
           <<227, 128, 128>>} \cup {<<226, 128, k>> : k \in 128..138}
IsHex(b) == InRange(b, 48, 57) \/ InRange(b, 65, 70) \/ InRange(b, 97, 102)
HexVal(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
\* how many bytes of white space begin at a / end at z
WhiteAt(s, a, z) ==
  CASE a <= z /\ s[a] \in White -> 1
    [] a + 1 <= z /\ SubSeq(s, a, a + 1) \in White2 -> 2
    [] a + 2 <= z /\ SubSeq(s, a, a + 2) \in White3 -> 3
    [] OTHER -> 0
WhiteTo(s, a, z) ==
  CASE a <= z /\ s[z] \in White -> 1
    [] a + 1 <= z /\ SubSeq(s, z - 1, z) \in White2 -> 2
    [] a + 2 <= z /\ SubSeq(s, z - 2, z) \in White3 -> 3
    [] OTHER -> 0
RECURSIVE TrimFrom(_, _, _)
TrimFrom(s, a, z) == LET k == WhiteAt(s, a, z) IN IF k > 0 THEN TrimFrom(s, a + k, z) ELSE a
RECURSIVE TrimTo(_, _, _)
TrimTo(s, a, z) == LET k == WhiteTo(s, a, z) IN IF k > 0 THEN TrimTo(s, a, z - k) ELSE z
Trim(s) == LET a == TrimFrom(s, 1, Len(s)) IN SubSeq(s, a, TrimTo(s, a, Len(s)))
\* the tokens so far and the one being read
TokStep(t, ch) == IF ch = 32 THEN [done |-> Append(t.done, t.cur), cur |-> <<>>]
                  ELSE [t EXCEPT !.cur = Append(@, ch)]
Tokens(s) == LET t == FoldLeft(TokStep, [done |-> <<>>, cur |-> <<>>], s) IN Append(t.done, t.cur)
\* one number 00..FF: a plus sign and leading zeros do not matter
Unsigned(t) == IF Len(t) > 0 /\ t[1] = 43 THEN Tail(t) ELSE t
TokVal(t) == FoldLeft(LAMBDA v, ch : IF v > 255 THEN v ELSE 16 * v + HexVal(ch), 0, Unsigned(t))
TokOk(t) == LET u == Unsigned(t) IN
            Len(u) > 0 /\ (\A i \in 1..Len(u) : IsHex(u[i])) /\ TokVal(t) <= 255
FileRun(kind, in) ==
  CASE kind = 0 -> LET ts == TLCEval(Tokens(Trim(in))) IN
                   IF \A i \in 1..Len(ts) : TokOk(ts[i])
                   THEN Ok(<<E("Bytes", "", TLCEval([i \in 1..Len(ts) |-> TokVal(ts[i])]))>>, 0) ELSE Err
    [] kind = 1 -> Ok(<<E("Bytes", "", in)>>, 0)
    [] OTHER -> Err

\* a file by its name: text if and only if the name ends in ".hex"
NamesText(nm) == Len(nm) >= 4 /\ SubSeq(nm, Len(nm) - 3, Len(nm)) = <<46, 104, 101, 120>>
NamedRun(nm, in) == FileRun(IF NamesText(nm) THEN 0 ELSE 1, in)

\* the command line tool (C26): a = kind of each file, in = their contents.
\* Out's number says whether the text is the one the library itself gives.
RECURSIVE FileItems(_)
FileItems(in) == IF Len(in) < 2 THEN <<>>
                 ELSE LET n == in[1] + 256 * in[2] IN
                      <<SubSeq(in, 3, n + 2)>> \o FileItems(SubSeq(in, n + 3, Len(in)))
CliOut(kind, content) == LET f == TLCEval(FileRun(kind, content)) IN
                         IF PktRun(f.ev[1].n).st = "ok" THEN "Packet" ELSE "Error"
CliRun(a, in) ==
  LET fs == TLCEval(FileItems(in))
      one(i) == <<E("File", ToString(i), <<>>), E("Out", CliOut(a[i], fs[i]), <<1>>)>>
  IN Ok(Cat(one, [i \in 1..Len(fs) |-> i], 1), 0)

\* code-range patterns (C27), as the characters of "E000 0nnn": all the codes
\* with a clear extension bit that agree at every written position
PatSymbol(ch) == CASE ch = 48 -> 0 [] ch = 49 -> 1 [] OTHER -> 2
PatCodes(p) ==
  LET bits == [i \in 1..7 |-> PatSymbol(p[IF i <= 3 THEN i + 1 ELSE i + 2])] IN
  SelectSeq([v \in 1..256 |-> v - 1],
            LAMBDA v : v < 128 /\ \A i \in 1..7 : bits[i] = 2 \/ Bit(v, 7 - i) = bits[i])

Expect(op, a, in) ==
  CASE op \in {"pkt", "slice", "loc"} -> PktRun(in)
    [] op = "msg"   -> MsgRun(in)
    [] op = "frame" -> FrameRun(in)
    [] op = "rec"   -> RecRun(in)
    [] op = "shdr"  -> HdrRun(in, 4)
    [] op = "lhdr"  -> HdrRun(in, 12)
    [] op = "aerr"  -> ErrRun(in)
    [] op = "asel"  -> SelRun(in)
    [] op = "dib"   -> DibRun(in)
    [] op = "vib"   -> VibRun(in)
    [] op = "f"     -> DateRun(in, 4, DateF)
    [] op = "g"     -> DateRun(in, 2, DateG)
    [] op = "i"     -> DateRun(in, 6, DateI)
    [] op = "j"     -> DateRun(in, 3, TimeJ)
    [] op = "k"     -> DateRun(in, 4, DstK)
    [] op = "bcd"   -> Fixed(in, a[1], a[1] <= 9 /\ BcdOk(First(in, a[1])), BcdEv(First(in, a[1]), FALSE))
    [] op = "ibcd"  -> Fixed(in, a[1], TRUE, Dat("ErrorValue", BcdText(First(in, a[1]))))
    [] op = "bs"    -> Fixed(in, a[1], a[1] <= 8, Dat("Signed", SignedBytes(First(in, a[1]))))
    [] op = "bu"    -> Fixed(in, a[1], a[1] <= 8, Dat("Unsigned", UnsignedBytes(First(in, a[1]))))
    [] op = "real"  -> IF Len(in) < 4 THEN Err ELSE Fixed(in, 4, TRUE, RealEv(First(in, 4)))
    [] op = "lat1"  -> Fixed(in, a[1], TRUE, Dat("String", Latin1Text(First(in, a[1]))))
    [] op = "ascii" -> TextRun(in)
    [] op = "man"   -> Ok(<<E("Man", ManString(ManCode(in[1], in[2])), <<>>)>>, 0)
    [] op = "errtxt" -> ErrTextRun(a, in)
    [] op = "file"  -> FileRun(a[1], in)
    [] op = "named" -> NamedRun(a, in)
    [] op = "cli"   -> CliRun(a, in)
    [] op = "pat"   -> Ok(<<E("Match", "", PatCodes(in))>>, 0)

(***************************************************************************)
(* Long inputs: a piece of the input, the a[3] bytes after the first a[2], *)
(* is repeated a[1] times.  The machine has by then taken it more than ten *)
(* times (all its counters stop there), so from the eleventh to the        *)
(* twelfth time on the outcome grows by the same amount each time.         *)
(***************************************************************************)
Pumped == {"ppkt", "pmsg", "pframe", "prec", "pvib", "pdib", "paerr"}
Unpumped(op) == CASE op = "ppkt" -> "pkt" [] op = "pmsg" -> "msg" [] op = "pframe" -> "frame" [] op = "prec" -> "rec"
                  [] op = "pvib" -> "vib" [] op = "pdib" -> "dib" [] op = "paerr" -> "aerr"
RECURSIVE Times(_, _)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
PumpIn(a, in, k) == First(in, a[2]) \o Times(SubSeq(in, a[2] + 1, a[2] + a[3]), k) \o SubSeq(in, a[2] + a[3] + 1, Len(in))
PumpSize(w) == IF w.st = "ok" THEN <<Len(w.ev), FoldLeft(LAMBDA x, y : x + Len(y.n), 0, w.ev), w.rest>> ELSE <<0, 0, 0>>
\* outcome and size after k repetitions
PumpOne(op, a, in, k) == LET all == TLCEval(PumpIn(a, in, k))
                             w == TLCEval(Expect(op, <<>>, all)) IN <<w.st, PumpSize(w)>>
PumpFrom(x, y, k) ==
  LET z == [i \in 1..3 |-> x[2][i] + (k - 11) * (y[2][i] - x[2][i])]
  IN IF x[1] /= y[1] THEN [st |-> "none", rest |-> 0, ev |-> <<>>]     \* not an input for this
     ELSE IF x[1] = "ok" THEN Ok(<<E("Count", "", <<z[1], z[2]>>)>>, z[3]) ELSE Err
PumpRun(op, a, in) == PumpFrom(TLCEval(PumpOne(Unpumped(op), a, in, 11)), TLCEval(PumpOne(Unpumped(op), a, in, 12)), a[1])

Expected(op, a, in) == IF op \in Pumped THEN PumpRun(op, a, in) ELSE Expect(op, a, in)

RestOps == {"prec", "pvib", "pdib", "rec", "shdr", "lhdr", "dib", "vib", "f", "g", "i", "j", "k", "bcd", "ibcd", "bs", "bu",
            "real", "lat1", "ascii"}

(***************************************************************************)
(* The facet of each property: the items it speaks about, and what it says *)
(* about the outcome.  "exact": accepted / rejected as specified.          *)
(* "sound": never accepted where the specification rejects.  "safe": any   *)
(* value or error, but an outcome.                                         *)
(***************************************************************************)
All == {"*"}
RecItems == {"Rec", "Fn", "Raw", "Sto", "Tar", "Sub", "Obis", "Vif", "Vifes", "Data", "More", "Mfr"}
HdrItems == {"Hdr", "Id", "Man", "Ver", "Type", "Acc", "Status"}
Facet(p) ==
  CASE p = "C01" -> [items |-> {}, mode |-> "safe"]
    [] p = "C02" -> [items |-> {"Frame", "Address"}, mode |-> "exact"]
    [] p = "C03" -> [items |-> {}, mode |-> "sound"]
    [] p = "C04" -> [items |-> All, mode |-> "exact"]
    [] p = "C05" -> [items |-> {"Frame", "Control"}, mode |-> "exact"]
    [] p = "C06" -> [items |-> {"Msg", "Hdr"}, mode |-> "exact"]
    [] p = "C07" -> [items |-> HdrItems, mode |-> "exact"]
    [] p = "C08" -> [items |-> {"Cfg"}, mode |-> "exact"]
    [] p = "C09" -> [items |-> RecItems, mode |-> "exact"]
    [] p = "C10" -> [items |-> {"Rec", "Raw", "Vif", "Data", "More", "Mfr"}, mode |-> "exact"]
    [] p = "C11" -> [items |-> {"Fn", "Sto", "Tar", "Sub", "Obis"}, mode |-> "exact"]
    [] p = "C12" -> [items |-> {"Vif"}, mode |-> "exact"]
    [] p = "C13" -> [items |-> {"Vif", "Vifes"}, mode |-> "exact"]
    [] p = "C14" -> [items |-> {"Raw", "Data"}, mode |-> "exact"]
    [] p = "C15" -> [items |-> {"Raw", "Data"}, mode |-> "exact"]
    [] p = "C16" -> [items |-> {"Data"}, mode |-> "exact"]
    [] p = "C17" -> [items |-> {"Vif", "Data"}, mode |-> "exact"]
    [] p = "C18" -> [items |-> {"Vif", "Data"}, mode |-> "exact"]
    [] p = "C19" -> [items |-> {"Data"}, mode |-> "exact"]
    [] p = "C20" -> [items |-> {"Msg", "App"}, mode |-> "exact"]
    [] p = "C21" -> [items |-> {"AErr"} \cup RecItems, mode |-> "exact"]
    [] p = "C22" -> [items |-> {"Man", "Name"}, mode |-> "exact"]
    [] p = "C23" -> [items |-> RecItems, mode |-> "exact"]
    [] p = "C24" -> [items |-> {"Msg", "Pay", "AErr", "Mfr"}, mode |-> "exact"]
    [] OTHER     -> [items |-> All, mode |-> "exact"]

Proj(ev, items) == IF items = All THEN ev ELSE SelectSeq(ev, LAMBDA x : x.e \in items \/ x.e = "Count")

Judge(line, p) ==
  LET f == Facet(p)  w == Expected(line.op, line.a, line.in) IN
  CASE f.mode = "safe"  -> line.st \in {"ok", "err", "inc"}
    [] f.mode = "sound" -> line.st = "ok" => w.st = "ok"
    [] OTHER -> /\ line.st = w.st
                /\ w.st = "ok" => /\ Proj(line.ev, f.items) = Proj(w.ev, f.items)
                                  /\ line.op \in RestOps => line.rest = w.rest

(***************************************************************************)
(* Incremental parsing (C04): the outcomes for every prefix of one buffer  *)
(***************************************************************************)
RECURSIVE LinkStates(_, _, _)
\* machine states after 0, 1, ... bytes
LinkStates(in, k, x) == IF k > Len(in) THEN <<x>> ELSE <<x>> \o LinkStates(in, k + 1, LinkStep(x, in[k]))

JudgePrefix(line) ==
  LET in == line.in  n == Len(in)
      xs == LinkStates(in, 1, LinkInit)
      acc == {k \in 0..n : LinkOk(xs[k + 1])}       \* at most one (checked by MBusLink)
      at == IF acc = {} THEN n + 1 ELSE CHOOSE k \in acc : TRUE
      seen == SelectSeq(line.ev, LAMBDA x : x.e = "Prefix")
      out(k) == seen[k + 1].s
      asks(k) == seen[k + 1].n[2]                     \* further bytes it waits for
      ann == Announced(in)
  IN /\ Len(seen) = n + 1
     /\ \A k \in 0..n :
          CASE k < at /\ at <= n -> out(k) = "inc" /\ asks(k) <= at - k
            [] k = at -> out(k) = "ok"
            [] k > at -> out(k) \in {"ok", "err"}      \* bytes of a following frame
            [] OTHER -> /\ out(k) \in {"inc", "err"}   \* never a packet
                        /\ (ann > 0 /\ out(k) = "inc" => k + asks(k) <= ann)
                        /\ (k > 0 /\ out(k - 1) = "err" => out(k) = "err")
                        /\ (ann > 0 /\ k >= ann => out(k) = "err")
                        /\ (k > 0 /\ in[1] \notin {104, 16, 229} => out(k) = "err")
     /\ (at = n => Proj(line.ev, {"Prefix"}) \o LinkEvs(xs[n + 1]) = line.ev)

(***************************************************************************)
(* Histories (C25): what each of a set of concurrent, repeated calls gave  *)
(***************************************************************************)
RECURSIVE HistItems(_)
HistItems(in) == IF Len(in) < 2 THEN <<>>
                 ELSE LET n == in[1] + 256 * in[2] IN
                      <<SubSeq(in, 3, n + 2)>> \o HistItems(SubSeq(in, n + 3, Len(in)))
HistEv(it) == LET w == PktRun(it) IN <<E("Call", w.st, it)>> \o w.ev
JudgeHistory(line) ==
  line.st = "ok" /\ line.ev = Cat(HistEv, HistItems(line.in), 1)

Verdict(line, p) ==
  IF p = "C01" THEN line.st \in {"ok", "err", "inc"}
                    /\ \A i \in 1..Len(line.ev) :
                         line.ev[i].e \in {"Prefix", "Call"} => line.ev[i].s /= "panic"
  ELSE CASE line.op = "prefix" -> JudgePrefix(line)
         [] line.op = "hist" -> JudgeHistory(line)
         [] line.op = "errpkt" -> line.st \in {"ok", "err"} /\ JudgeErrPkt(line)
         [] OTHER -> Judge(line, p)
=============================================================================
