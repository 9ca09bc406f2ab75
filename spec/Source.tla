------------------------------- MODULE Source -------------------------------
(* Source files with log statements, and what an instrumented program must   *)
(* log and print.  A program is a main unit, a header that both units        *)
(* include and a second unit; each is a sequence of pieces: a context (how   *)
(* the statement is embedded in the code around it) filled with statements   *)
(* (level, layout, format and arguments).                                    *)
(*                                                                           *)
(* Characters: ` stands for a double quote, ^ for a backslash, $ for a       *)
(* newline and @ for some non-ASCII text.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Char(s, i) == SubSeq(s, i, i)
NewLines(s) == Cardinality({i \in 1..Len(s) : Char(s, i) = "$"})
RECURSIVE Join(_, _), Cat(_)
Join(ss, sep) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

-----------------------------------------------------------------------------
(* Which occurrences of NANO_LOG in a text are log statements: the ones that *)
(* are an identifier of their own, followed by a parenthesis, outside of     *)
(* comments, literals, directives and skipped groups.                        *)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
IdChars == Lower \cup Upper \cup Digits \cup {"_", "@"}
Sites == [NANO_LOG |-> 1, LOG2 |-> 2]   \* LOG2 is a macro that expands to two statements

Start == [m |-> "code", prev |-> "", id |-> "", idl |-> 0, last |-> "", lastl |-> 0, line |-> 1, bol |-> TRUE,
          dir |-> "", skip |-> FALSE, delim |-> "", tail |-> "", found |-> <<>>]

CodeStep(st, c) ==
    LET ended == st.id # ""
        last == IF ended THEN st.id ELSE st.last
        lastl == IF ended THEN st.idl ELSE st.lastl
        s == [st EXCEPT !.id = "", !.last = last, !.lastl = lastl, !.prev = c]
    IN CASE c \in IdChars -> [st EXCEPT !.id = @ \o c, !.idl = IF ended THEN @ ELSE st.line, !.prev = c]
         [] c = "'" /\ ended /\ Char(st.id, 1) \in Digits -> [st EXCEPT !.id = @ \o c, !.prev = c]
         [] c = "`" -> [s EXCEPT !.m = IF ended /\ last \in {"R", "LR", "u8R"} THEN "delim" ELSE "string", !.delim = "", !.last = "", !.prev = ""]
         [] c = "'" -> [s EXCEPT !.m = "char", !.last = "", !.prev = ""]
         [] c = "/" /\ st.prev = "/" -> [s EXCEPT !.m = "line"]
         [] c = "*" /\ st.prev = "/" -> [s EXCEPT !.m = "block", !.prev = ""]
         [] c \in {"/", " ", "$", "^"} -> s
         [] c = "(" -> [s EXCEPT !.last = "", !.found = IF last \in DOMAIN Sites THEN @ \o [i \in 1..Sites[last] |-> lastl] ELSE @]
         [] OTHER -> [s EXCEPT !.last = ""]

LexStep(st0, c) ==
    LET st == [st0 EXCEPT !.line = IF c = "$" THEN @ + 1 ELSE @, !.bol = c = "$" \/ (@ /\ c = " ")]
        esc == IF st0.prev = "^" THEN "" ELSE c
    IN CASE st0.m = "code" /\ st0.bol /\ c = "#" -> [st EXCEPT !.m = "directive", !.dir = "", !.prev = ""]
         [] st0.m = "code" /\ st0.skip -> st
         [] st0.m = "code" -> [CodeStep([st EXCEPT !.line = st0.line], c) EXCEPT !.line = st.line]
         [] st0.m = "directive" /\ c = "$" /\ st0.prev # "^" ->
                [st EXCEPT !.m = "code", !.prev = "", !.skip = IF st0.dir = "if 0" THEN TRUE ELSE IF st0.dir = "endif" THEN FALSE ELSE @]
         [] st0.m = "directive" -> [st EXCEPT !.dir = @ \o c, !.prev = c]
         [] st0.m = "line" -> IF c = "$" /\ st0.prev # "^" THEN [st EXCEPT !.m = "code", !.prev = ""] ELSE [st EXCEPT !.prev = c]
         [] st0.m = "block" -> IF c = "/" /\ st0.prev = "*" THEN [st EXCEPT !.m = "code", !.prev = ""] ELSE [st EXCEPT !.prev = c]
         [] st0.m = "string" -> IF c = "`" /\ st0.prev # "^" THEN [st EXCEPT !.m = "code", !.prev = ""] ELSE [st EXCEPT !.prev = esc]
         [] st0.m = "char" -> IF c = "'" /\ st0.prev # "^" THEN [st EXCEPT !.m = "code", !.prev = ""] ELSE [st EXCEPT !.prev = esc]
         [] st0.m = "delim" -> IF c = "(" THEN [st EXCEPT !.m = "raw", !.tail = ""] ELSE [st EXCEPT !.delim = @ \o c]
         [] st0.m = "raw" -> LET t == st0.tail \o c
                                 n == Len(st0.delim) + 2
                             IN IF t = ")" \o st0.delim \o "`" THEN [st EXCEPT !.m = "code", !.prev = ""]
                                ELSE [st EXCEPT !.tail = IF Len(t) = n THEN SubSeq(t, 2, n) ELSE t]

(* the line of each log statement in a text *)
Found(text) == FoldLeft(LexStep, Start, [i \in 1..Len(text) |-> Char(text, i)]).found

-----------------------------------------------------------------------------
(* Formats: source of the format, sources of the arguments, text logged,     *)
(* and what the evaluation of the arguments prints.                          *)
F(f, a, t) == [f |-> f, a |-> a, t |-> t, e |-> <<>>]
Formats == <<
    F("`plain`", <<>>, "plain"),
    [f |-> "`n=%d.`", a |-> <<"n(7)">>, t |-> "n=7.", e |-> <<"n7">>],
    F("`^`q^`, %s`", <<"`a,b)`">>, "`q`, a,b)"),
    F("`;) %c(,`", <<"')'">>, ";) )(,"),
    F("`half` ` and %d`$  ` half`", <<"2">>, "half and 2 half"),
    F("`50%% %s//no`", <<"`/*x*/`">>, "50% /*x*///no"),
    F("`back^^`", <<>>, "back^"),
    F("`^^` `%s` `^^^``", <<"`^``">>, "^`^`"),
    F("`[%s]`", <<"`x` `y`">>, "[xy]"),
    F("`%*d|%-4s|`", <<"5", "42", "`ab`">>, "   42|ab  |"),
    F("`NANO_LOG(NOTICE, ^`%d^`);`", <<"3">>, "NANO_LOG(NOTICE, `3`);"),
    F("`{%d}`", <<"int{4}">>, "{4}"),
    F("`l%d`", <<"[&](int x, int y) { return x + y; }(1, 2)">>, "l3"),
    F("`k%d`", <<"[a = 1, b = 2]() { return a * 10 + b; }()">>, "k12"),
    F("`%d/%s`", <<"std::max({1, 9, 3})", "(const char *[]){`p`, `q`}[1]">>, "9/q"),
    F("`%c%c%c`", <<"'`'", "'^''", "'^^'">>, "`'^"),
    F("`<%s>`", <<"R`(a ` ) NANO_LOG(NOTICE, `b`); )`">>, "<a ` ) NANO_LOG(NOTICE, `b`); >"),
    F("`%ld`", <<"1'000'000L">>, "1000000"),
    F("`@%d@`", <<"1">>, "@1@"),
    F("`%.*s`", <<"2", "`abcd`">>, "ab"),
    F("`%s(%ls)`", <<"`odd`", "L`wide`">>, "odd(wide)"),
    F("`%.3ls`", <<"L`wide`">>, "wid"),
    F("`%.1f`", <<"2.5">>, "2.5"),
    F("`^101%d^x2e`", <<"5">>, "A5."),
    F("`%d`", <<"(1, 2)">>, "2"),
    F("`%s`", <<"yes() ? `y` : `n`">>, "y"),
    F("`%d`", <<"TWICE(3)">>, "6"),
    F("`%` PRIu64 ` u`", <<"(uint64_t)5">>, "5 u"),
    F("`c` /* , `) */ `d`", <<>>, "cd"),
    F("`%d`", <<"arr[idx(1, 2)]">>, "33"),
    F("`%d`", <<"pick<1, 2>()">>, "12"),
    F("`%s`", <<"std::string(`tmp, `).append(1, ')').c_str()">>, "tmp, )"),
    F("` `", <<>>, " "),
    F("`%5.3d|%+d|%#x|%-5c|%05d`", <<"7", "7", "255", "'x'", "42">>, "  007|+7|0xff|x    |00042"),
    F("`%% %%d %d%%`", <<"9">>, "% %d 9%"),
    F("`%s %s`", <<"`%d`", "`%s %n`">>, "%d %s %n") >>

Levels == <<"ERROR", "WARNING", "NOTICE", "DEBUG">>
LevelForms == <<"", "NanoLog::LogLevels::", "(", "LVL_">>
LevelText(l, form) == CASE form = 2 -> "NanoLog::LogLevels::" \o Levels[l]
                        [] form = 3 -> "(" \o Levels[l] \o ")"
                        [] form = 4 -> "LVL_" \o Levels[l]
                        [] OTHER -> Levels[l]
Gap == "$$$$$$$$$$$$"
Layouts == <<"one", "tight", "space", "lines", "spread", "comment", "joined", "gap", "paren">>
Layout(y, l, as) ==
    CASE y = "one" -> "NANO_LOG(" \o l \o ", " \o Join(as, ", ") \o ");"
      [] y = "tight" -> "NANO_LOG(" \o l \o "," \o Join(as, ",") \o ");"
      [] y = "space" -> "NANO_LOG  ( " \o l \o " , " \o Join(as, " , ") \o " ) ;"
      [] y = "lines" -> "NANO_LOG(" \o l \o ",$    " \o Join(as, ",$    ") \o ");"
      [] y = "spread" -> "NANO_LOG$($" \o l \o "$,$" \o Join(as, "$,$") \o "$)$;"
      [] y = "comment" -> "NANO_LOG(/* `,) */" \o l \o ", // `($  " \o Join(as, " /* ) */, ") \o ") /* ` */ ;"
      [] y = "joined" -> "NANO_LOG(" \o l \o ", ^$    " \o Join(as, ",^$ ") \o ");"
      [] y = "gap" -> "NANO_LOG(" \o l \o "," \o Gap \o Join(as, "," \o Gap) \o Gap \o ") " \o Gap \o ";"
      [] y = "paren" -> "NANO_LOG" \o Gap \o "(" \o Gap \o l \o Gap \o ", " \o Join(as, ", ") \o ");"

(* s: [l, o, y, f] : level, form of the level, layout, format *)
Stmt(s) == [k |-> "m", s |-> Layout(Layouts[s.y], LevelText(s.l, s.o), <<Formats[s.f].f>> \o Formats[s.f].a),
            ms |-> <<[l |-> Levels[s.l], t |-> Formats[s.f].t, e |-> Formats[s.f].e]>>]

-----------------------------------------------------------------------------
(* Contexts.  Segments are text or statements; events are the statements (by *)
(* the number of their segment and position in it) and the outputs of the    *)
(* program in execution order.                                               *)
T(s) == [k |-> "s", s |-> s, ms |-> <<>>]
M(i) == [k |-> "m", i |-> i, j |-> 1]
Say(s) == [k |-> "s", s |-> s]
P(body, ev) == [top |-> <<>>, body |-> body, ev |-> ev]
Log2 == [k |-> "m", s |-> "LOG2(3);", ms |-> <<[l |-> "NOTICE", t |-> "two 3", e |-> <<>>], [l |-> "WARNING", t |-> "two 3", e |-> <<>>]>>]

Contexts == <<"plain", "if", "else", "elseif", "for", "while", "do", "two", "levels", "block", "switch", "lambda", "char", "chars", "string", "comment",
              "quotes", "longids", "nocall", "raw", "raw2", "digits", "if0", "wrap", "log2", "gap", "template", "class", "level", "label", "return", "try",
              "continued", "adjacent", "member", "ending", "prefixes", "elseblock", "nest", "pragma", "comma">>

(* piece p: [c, s] with two statements; n makes names unique *)
Piece(p, n) ==
    LET a == Stmt(p.s[1])
        b == Stmt(p.s[2])
        other == Stmt([p.s[1] EXCEPT !.l = 1 + (@ % 4)])
        c == Contexts[p.c]
    IN CASE c = "plain" -> P(<<a>>, <<M(1)>>)
         [] c = "if" -> P(<<T("if (yes()) "), a, T(" else say(`e`);")>>, <<M(2)>>)
         [] c = "else" -> P(<<T("if (yes()) say(`i`); else "), a>>, <<Say("i")>>)
         [] c = "elseif" -> P(<<T("if (no()) "), a, T(" else if (yes()) "), b>>, <<M(4)>>)
         [] c = "for" -> P(<<T("for (int i = 0; i < 3; ++i) "), a>>, <<M(2), M(2), M(2)>>)
         [] c = "while" -> P(<<T("int i = 2; while (i-- > 0) "), a, T(" say(`w`);")>>, <<M(2), M(2), Say("w")>>)
         [] c = "do" -> P(<<T("do "), a, T(" while (no());")>>, <<M(2)>>)
         [] c = "two" -> P(<<a, T(" "), b>>, <<M(1), M(3)>>)
         [] c = "levels" -> P(<<a, T(" "), other, T(" "), a>>, <<M(1), M(3), M(5)>>)
         [] c = "block" -> P(<<T("{ say(`b`); "), a, T(" say(`c`); }")>>, <<Say("b"), M(2), Say("c")>>)
         [] c = "switch" -> P(<<T("switch (n(2)) { case 1: "), a, T(" break; case 2: "), b, T(" break; default: say(`d`); }")>>, <<Say("n2"), M(4)>>)
         [] c = "lambda" -> P(<<T("auto f = [&](int k) { "), a, T(" return k; }; say(f(3) == 3 ? `ok` : `ko`);")>>, <<M(2), Say("ok")>>)
         [] c = "char" -> P(<<T("char c = '`'; "), a, T(" say(c == '`' ? `ok` : `ko`);")>>, <<M(2), Say("ok")>>)
         [] c = "chars" -> P(<<T("char c = '(', d = ')', e = '^'', g = ','; "), a, T(" say(c == '(' && d == ')' && e == '^'' && g == ',' ? `ok` : `ko`);")>>, <<M(2), Say("ok")>>)
         [] c = "string" -> P(<<T("say(`^^^` NANO_LOG(NOTICE, 1); ^``); "), a>>, <<Say("^` NANO_LOG(NOTICE, 1); `"), M(2)>>)
         [] c = "comment" -> P(<<T("/* NANO_LOG(NOTICE, `no`); */ "), a, T(" // NANO_LOG(DEBUG, `no`);$")>>, <<M(2)>>)
         [] c = "quotes" -> P(<<T("// don't `$/* it's ` */ "), a, T(" /* `$ ' */ "), b>>, <<M(2), M(4)>>)
         [] c = "longids" -> P(<<T("MY_NANO_LOG(`a`); NANO_LOGX(`b`); xNANO_LOG(`c`); NNANO_LOG(`d`); NANO_LOG_(`f`); NANO_LOG1(`g`); "), a>>,
                                <<Say("a"), Say("b"), Say("c"), Say("d"), Say("f"), Say("g"), M(2)>>)
         [] c = "nocall" -> P(<<T("int NANO_LOGS = 1; const char *q = `NANO_LOG`; say(q); (void)NANO_LOGS; "), a>>, <<Say("NANO_LOG"), M(2)>>)
         [] c = "raw" -> P(<<T("say(R`(x$NANO_LOG(NOTICE, `no`);$y)`); "), a>>, <<Say("x$NANO_LOG(NOTICE, `no`);$y"), M(2)>>)
         [] c = "raw2" -> P(<<T("say(R`d(NANO_LOG)` ))d`); "), a, T(" say(R`(^)`);")>>, <<Say("NANO_LOG)` )"), M(2), Say("^")>>)
         [] c = "digits" -> P(<<T("int m = 1'000; "), a, T(" say(m == 1'000 ? `ok` : `ko`);")>>, <<M(2), Say("ok")>>)
         [] c = "if0" -> P(<<T("$#if 0$" \o a.s \o "$#endif$"), b>>, <<M(2)>>)
         [] c = "wrap" -> P(<<T("WRAP("), a, T(")")>>, <<M(2)>>)
         [] c = "log2" -> P(<<Log2, T(" "), a>>, <<M(1), [M(1) EXCEPT !.j = 2], M(3)>>)
         [] c = "gap" -> P(<<T(Gap), a, T(Gap), b>>, <<M(2), M(4)>>)
         [] c = "template" -> [top |-> <<T("template <class X> static void t" \o n \o "(X x) { (void)x; "), a, T(" }$")>>, body |-> <<T("t" \o n \o "(1); t" \o n \o "(`x`);")>>, ev |-> <<M(2), M(2)>>]
         [] c = "class" -> [top |-> <<T("namespace { struct C" \o n \o " { int v; C" \o n \o "() : v(1) { "), a, T(" } void f() const { "), b, T(" } }; }$")>>,
                             body |-> <<T("C" \o n \o " c; c.f();")>>, ev |-> <<M(2), M(4)>>]
         [] c = "level" -> P(<<T("NanoLog::setLogLevel(NanoLog::LogLevels::WARNING); "), Stmt([p.s[1] EXCEPT !.f = 5]), T(" NanoLog::setLogLevel(NanoLog::LogLevels::DEBUG);")>>,
                              IF p.s[1].l <= 2 THEN <<M(2)>> ELSE <<>>)
         [] c = "label" -> P(<<T("goto l; l: "), a>>, <<M(2)>>)
         [] c = "return" -> P(<<T("[]() -> void { if (yes()) { "), a, T(" return; } say(`no`); }();")>>, <<M(2)>>)
         [] c = "try" -> P(<<T("try { "), a, T(" throw 1; } catch (int) { "), b, T(" }")>>, <<M(2), M(4)>>)
         [] c = "continued" -> P(<<T("// NANO_LOG(NOTICE, `x`); ^$ NANO_LOG(NOTICE, `y`);$"), a>>, <<M(2)>>)
         [] c = "adjacent" -> P(<<a, b>>, <<M(1), M(2)>>)
         [] c = "member" -> P(<<T("Obj o; o.xNANO_LOG(`m`); "), a>>, <<Say("m"), M(2)>>)
         [] c = "ending" -> P(<<T("say(`ends with ^^`); "), a>>, <<Say("ends with ^"), M(2)>>)
         [] c = "prefixes" -> P(<<T("char32_t w = U'`'; wchar_t v = L'^''; char x = u8'('; (void)w; (void)v; (void)x; "), a, T(" say(u8`q`);")>>, <<M(2), Say("q")>>)
         [] c = "elseblock" -> P(<<T("if (no()) { "), a, T(" } else { "), b, T(" }")>>, <<M(4)>>)
         [] c = "nest" -> P(<<T("for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (i == j) "), a, T(" else "), b>>, <<M(2), M(4), M(4), M(2)>>)
         [] c = "pragma" -> P(<<T("$#pragma GCC diagnostic push$"), a, T("$#pragma GCC diagnostic pop$"), b>>, <<M(2), M(4)>>)
         [] c = "comma" -> P(<<T("int i = (say(`1`), 2), j[] = {1, 2}; (void)i; (void)j; "), a>>, <<Say("1"), M(2)>>)

-----------------------------------------------------------------------------
(* A file: the pieces one after the other, each its own function. *)
Function(kind, p, k) == LET q == Piece(p, kind \o ToString(k)) IN
    q.top \o <<T((IF kind = "h" THEN "static " ELSE "") \o "void " \o kind \o ToString(k) \o "() {$")>> \o q.body \o <<T("$}$")>>
(* segments of the events of a piece start after its top or after the opening of its function *)
Prefix(kind, unit) == IF kind = "h" THEN "#pragma once$#include `front.h`$"
                      ELSE "#include `front.h`$#include `part.h`$" \o (IF kind = "p" THEN "void others();$" ELSE "")
Calls(kind, n) == Cat([i \in 1..n |-> kind \o ToString(i) \o "(); "])
Suffix(kind, unit, nh) == CASE kind = "p" -> "void run() { " \o Calls("p", Len(unit)) \o Calls("h", nh) \o "others(); }$"
                            [] kind = "o" -> "void others() { " \o Calls("h", nh) \o Calls("o", Len(unit)) \o "}$"
                            [] OTHER -> ""
RECURSIVE Functions(_, _, _)
Functions(kind, unit, k) == IF k > Len(unit) THEN <<>> ELSE Function(kind, unit[k], k) \o Functions(kind, unit, k + 1)
Segments(kind, unit, nh) == <<T(Prefix(kind, unit))>> \o Functions(kind, unit, 1) \o <<T(Suffix(kind, unit, nh))>>
Text(segs) == Cat([i \in 1..Len(segs) |-> segs[i].s])
RECURSIVE LinesFrom(_, _, _)
LinesFrom(segs, i, line) == IF i > Len(segs) THEN <<>> ELSE <<line>> \o LinesFrom(segs, i + 1, line + NewLines(segs[i].s))
SegLines(segs) == LinesFrom(segs, 1, 1)
Intended(segs) == LET ls == SegLines(segs) IN FlattenSeq([i \in 1..Len(segs) |-> [j \in 1..Len(segs[i].ms) |-> ls[i]]])

(* what executing piece k of a unit logs and prints *)
RECURSIVE Before(_, _, _)
Before(kind, unit, k) == IF k = 1 THEN 1 ELSE Before(kind, unit, k - 1) + Len(Function(kind, unit[k - 1], k - 1))
PieceEvents(kind, file, unit, k, segs, lines) ==
    LET q == Piece(unit[k], kind \o ToString(k))
        base == Before(kind, unit, k) + (IF q.top = <<>> THEN 1 ELSE 0)
    IN [i \in 1..Len(q.ev) |->
          LET e == q.ev[i] IN
          IF e.k = "s" THEN [says |-> <<e.s>>, log |-> <<>>]
          ELSE LET m == segs[base + e.i].ms[e.j]
               IN [says |-> m.e, log |-> <<[file |-> file, line |-> lines[base + e.i], to |-> lines[base + e.i] + NewLines(segs[base + e.i].s), l |-> m.l, t |-> m.t]>>]]
UnitEvents(kind, file, unit, nh) ==
    LET segs == Segments(kind, unit, nh)
        lines == SegLines(segs)
    IN FlattenSeq([k \in 1..Len(unit) |-> PieceEvents(kind, file, unit, k, segs, lines)])
(* a program: [file, main, hdr, other] *)
HeaderName(file) == IF \E i \in 1..Len(file) : Char(file, i) = "/" THEN "./part.h" ELSE "part.h"   \* as the compiler finds it
Events(g) == UnitEvents("p", g.file, g.main, Len(g.hdr)) \o UnitEvents("h", HeaderName(g.file), g.hdr, 0)
             \o UnitEvents("h", "part.h", g.hdr, 0) \o UnitEvents("o", "other.cc", g.other, Len(g.hdr))
Logged(g) == LET ev == Events(g) IN FlattenSeq([i \in 1..Len(ev) |-> ev[i].log])
Said(g) == LET ev == Events(g) IN FlattenSeq([i \in 1..Len(ev) |-> ev[i].says])
Files(g) == << <<g.file, Text(Segments("p", g.main, Len(g.hdr)))>>, <<"part.h", Text(Segments("h", g.hdr, 0))>>, <<"other.cc", Text(Segments("o", g.other, Len(g.hdr)))>> >>

(* the statements a reader of the text finds are the ones that were put there *)
Consistent(g) == /\ LET s == Segments("p", g.main, Len(g.hdr)) IN Found(Text(s)) = Intended(s)
                 /\ LET s == Segments("h", g.hdr, 0) IN Found(Text(s)) = Intended(s)
                 /\ LET s == Segments("o", g.other, Len(g.hdr)) IN Found(Text(s)) = Intended(s)
=============================================================================
