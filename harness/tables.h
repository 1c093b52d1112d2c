// Regex texts in lexertl syntax next to an equivalent in the plain syntax of oracle.h.
// Written from the documentation of the syntax, not from the tokeniser.
#pragma once
#include <lexertl/enums.hpp>
struct Ent { const char* rx; size_t n; const char* plain; unsigned flags; int kind; const char* mac; };
enum { NARROW = 1, REJECT = 2 };  // NARROW: only meaningful for byte lexers; REJECT: must be rejected
#define E(rx, plain) { rx, sizeof(rx) - 1, plain, DNN, 0, nullptr }
#define EN(rx, plain) { rx, sizeof(rx) - 1, plain, DNN, NARROW, nullptr }
#define EF(rx, plain, fl) { rx, sizeof(rx) - 1, plain, fl, 0, nullptr }
#define ER(rx) { rx, sizeof(rx) - 1, "a", DNN, REJECT, nullptr }
#define EM(rx, plain, mac) { rx, sizeof(rx) - 1, plain, DNN, 0, mac }
#define EMR(rx, mac) { rx, sizeof(rx) - 1, "a", DNN, REJECT, mac }
const unsigned DNN = 2, DCRLF = 4, IC = 1, XWS = 8, NONE = 0;
// C06 charsets
static const Ent T6[] = {
  E("[a]", "[a]"), E("[abc]", "[abc]"), E("[a-f]", "[a-f]"), E("[a-fx-z0-9]", "[a-fx-z0-9]"), E("[^a]", "[^a]"), E("[^a-z0]", "[^a-z0]"),
  E("[-a]", "[\\-a]"), E("[a-]", "[a\\-]"), E("[^-a]", "[^\\-a]"), E("[a^]", "[a\\^]"), E("[\\]a]", "[\\]a]"), E("[\\\\]", "[\\\\]"), E("[\\-a]", "[\\-a]"), E("[a\\-c]", "[ac\\-]"),
  E("[\\n\\r\\t]", "[\\n\\r\\t]"), E("[\\a\\b\\f\\v\\e]", "[\\x07\\x08\\x0c\\x0b\\x1b]"), E("[\\x41-\\x43]", "[A-C]"), E("[\\101-\\103]", "[A-C]"), E("[\\0]", "[\\x00]"), E("[\\x0-\\x1f]", "[\\x00-\\x1f]"), E("[^\\0]", "[^\\x00]"),
  E("[\\x7f]", "[\\x7f]"), EN("[\\x80-\\xff]", "[\\x80-\\xff]"), EN("[^\\x80-\\xff]", "[\\x00-\\x7f]"), EN("[\xe9-\xeb]", "[\\xe9-\\xeb]"), EN("[a\xff]", "[a\\xff]"), EN("[\\0-\\376]", "[\\x00-\\xfe]"), EN("[^\\0-\\376]", "[\\xff]"),
  E("[\\d]", "[0-9]"), E("[\\w]", "[a-zA-Z0-9_]"), E("[\\s]", "[ \\t\\n\\r\\x0b\\x0c]"), E("[^\\d]", "[^0-9]"), E("[^\\w]", "[^a-zA-Z0-9_]"), E("[^\\s]", "[^ \\t\\n\\r\\x0b\\x0c]"), E("[\\D]", "[^0-9]"), E("[\\W]", "[^a-zA-Z0-9_]"), E("[\\S]", "[^ \\t\\n\\r\\x0b\\x0c]"), E("[^\\D]", "[0-9]"), E("[^\\W]", "[a-zA-Z0-9_]"), E("[^\\S]", "[ \\t\\n\\r\\x0b\\x0c]"),
  E("\\d", "[0-9]"), E("\\w", "[a-zA-Z0-9_]"), E("\\s", "[ \\t\\n\\r\\x0b\\x0c]"), E("\\D", "[^0-9]"), E("\\W", "[^a-zA-Z0-9_]"), E("\\S", "[^ \\t\\n\\r\\x0b\\x0c]"),
  E("[\\da-f]", "[0-9a-f]"), E("[a-f\\d]", "[0-9a-f]"), E("[x\\s]", "[x \\t\\n\\r\\x0b\\x0c]"), E("[^\\d\\s]", "[^0-9 \\t\\n\\r\\x0b\\x0c]"), E("[\\d-]", "[0-9\\-]"), E("[\\W\\d]", "[^a-zA-Z_]"), E("[^\\Wx]", "[a-wyzA-Z0-9_]"),
  EN("[[:alpha:]]", "[a-zA-Z]"), EN("[[:alnum:]]", "[a-zA-Z0-9]"), EN("[[:blank:]]", "[ \\t]"), EN("[[:cntrl:]]", "[\\x00-\\x1f\\x7f]"), EN("[[:digit:]]", "[0-9]"), EN("[[:graph:]]", "[\\x21-\\x7e]"), EN("[[:lower:]]", "[a-z]"), EN("[[:print:]]", "[\\x20-\\x7e]"), EN("[[:punct:]]", "[!-/:-@\\[-`{-~]"), EN("[[:space:]]", "[ \\t\\n\\r\\x0b\\x0c]"), EN("[[:upper:]]", "[A-Z]"), E("[[:xdigit:]]", "[0-9a-fA-F]"),
  EN("[[:^alpha:]]", "[^a-zA-Z]"), EN("[[:^alnum:]]", "[^a-zA-Z0-9]"), EN("[[:^blank:]]", "[^ \\t]"), EN("[[:^cntrl:]]", "[^\\x00-\\x1f\\x7f]"), EN("[[:^digit:]]", "[^0-9]"), EN("[[:^graph:]]", "[^\\x21-\\x7e]"), EN("[[:^lower:]]", "[^a-z]"), EN("[[:^print:]]", "[^\\x20-\\x7e]"), EN("[[:^punct:]]", "[^!-/:-@\\[-`{-~]"), EN("[[:^space:]]", "[^ \\t\\n\\r\\x0b\\x0c]"), EN("[[:^upper:]]", "[^A-Z]"), E("[[:^xdigit:]]", "[^0-9a-fA-F]"),
  EN("[^[:alpha:]]", "[^a-zA-Z]"), EN("[[:digit:]x[:upper:]_]", "[0-9xA-Z_]"), EN("[^[:^alpha:]]", "[a-zA-Z]"), EN("[[:upper:]a-]", "[A-Za\\-]"), EN("[[:^lower:][:lower:]]", "[\\x00-\\xff]"), EN("[a[:digit:]-]", "[a0-9\\-]"), E("[[]", "[\\[]"), E("[a[b]", "[a\\[b]"), E("[:a]", "[:a]"), E("[{}()*+?.|/$\"]", "[{}()*+?.|/$\"]"), E("[ ]", "[ ]"), E("[+--]", "[+-\\-]"), E("[!--]", "[!-\\-]"),
  EF(".", "[^\\n]", DNN), EF(".", "[^\\n\\r]", DCRLF), EF(".", "(.|\\n)", NONE), EF("(?s:.)", "(.|\\n)", DNN), EF("(?-s:.)", "[^\\n]", NONE), EF("..", "[^\\n][^\\n]", DNN), EF("[.]", "[.]", NONE), EF("a.", "a[^\\r\\n]", DCRLF), EF(".*a", "[^\\n]*a", DNN), EF("(?s:.)*a", "(.|\\n)*a", DNN), EF("(?s:.(?-s:.))", "(.|\\n)[^\\n]", DNN), EF("(?s:(a).)", "a(.|\\n)", DNN), EF("(?s:a).", "a[^\\n]", DNN), EF(".(?s:.).", "[^\\n](.|\\n)[^\\n]", DNN),
  ER("[]"), ER("[^\\0-\\xff\\x0-\\xff"), ER("[b-a]"), ER("[a"), ER("[\\d-z]"), ER("[a-\\d]"), ER("[[:alpha:]-z]"), ER("[a-[:alpha:]]"), ER("[[:foo:]]"), ER("[[:alpha]]"), ER("[[:alph:]]"), ER("[[:alpha:"), ER("["), ER("[^"), ER("[a-"), ER("[\\"),
};
// C08 case (byte lexers; ASCII letters)
static const Ent T8[] = {
  EF("a", "[aA]", IC | DNN), EF("Ab", "[aA][bB]", IC | DNN), EF("[a-c]", "[a-cA-C]", IC | DNN), EF("[^a-c]", "[^a-cA-C]", IC | DNN), EF("[Z]", "[zZ]", IC | DNN), EF("[X-_]", "[X-_x-z]", IC | DNN), EF("[^x]", "[^xX]", IC | DNN), EF("\"aB1\"", "[aA][bB]1", IC | DNN), EF("@", "@", IC), EF("[@]", "[@]", IC), EF("[[]", "[\\[]", IC), EF("[`]", "`", IC), EF("\\x41", "[aA]", IC), EF("[\\x41-\\x43]", "[a-cA-C]", IC), EF("\\w", "[a-zA-Z0-9_]", IC), EF("[[:lower:]]", "[a-zA-Z]", IC), EF("[[:upper:]]", "[a-zA-Z]", IC), EF("[W-d]", "[W-Zw-z\\[-`a-dA-D]", IC), EF("[0-9]", "[0-9]", IC), EF("[!-~]", "[!-~]", IC), EF("[B-Y]", "[B-Yb-y]", IC), EF("k\\n", "[kK]\\n", IC), EF("1aZ", "1[aA][zZ]", IC),
  EF("a", "a", DNN), EF("Ab", "Ab", DNN), EF("[a-c]", "[a-c]", DNN), EF("\"aB\"", "aB", DNN), EF("[^X]", "[^X]", DNN), EF("\\x41", "A", DNN),
  EF("(?i:a)b", "[aA]b", DNN), EF("a(?i:b)c", "a[bB]c", DNN), EF("(?i:ab)", "[aA][bB]", DNN), EF("(?i:a(?-i:b)c)", "[aA]b[cC]", DNN), EF("(?i:(a)b)", "[aA][bB]", DNN), EF("(?i:((a))b)c", "[aA][bB]c", DNN), EF("(?-i:a)b", "a[bB]", IC | DNN), EF("a(?-i:b(?i:c)d)e", "[aA]b[cC]d[eE]", IC | DNN), EF("(?-i:(a)b)c", "ab[cC]", IC | DNN), EF("(?i:a)|b", "[aA]|b", DNN), EF("(?i:a|b)c", "([aA]|[bB])c", DNN), EF("(?i:a)*b", "[aA]*b", DNN), EF("(?i:[a-c])d", "[a-cA-C]d", DNN), EF("(?-i:[a-c])d", "[a-c][dD]", IC), EF("(?i:\"x\")y", "[xX]y", DNN), EF("(?i:a)(b)(?i:c)d", "[aA]b[cC]d", DNN), EF("(a(?i:b))c", "a[bB]c", DNN), EF("((?i:b)a)c", "[bB]ac", DNN), EF("(?is:a.)b.", "[aA](.|\\n)b[^\\n]", DNN), EF("(?i-s:a.)b.", "[aA][^\\n]b(.|\\n)", NONE), EF("(?-is:a.)b", "a(.|\\n)[bB]", IC | DNN), EF("(?i:a(?i:b)c)d", "[aA][bB][cC]d", DNN), EF("(?i:a(b(?-i:c)d)e)f", "[aA][bB]c[dD][eE]f", DNN), EF("(?i:[^a])b", "[^aA]b", DNN), EF("(?x:a b)c d", "abc d", DNN), EF("(?:a)b", "ab", DNN), EF("(?:a)b", "[aA][bB]", IC | DNN), EF("(?i:a{2})a", "[aA][aA]a", DNN), EF("(?i:\\x61)\\x61", "[aA]a", DNN),
  E("(?i:a((b)c)d)e", "[aA][bB][cC][dD]e"), E("(?i:((a)))b", "[aA]b"), E("(?i:(((a)b)c)d)e", "[aA][bB][cC][dD]e"), EF("(?-i:((a)b(?i:(c))))d", "ab[cC][dD]", IC | DNN), E("(a(?i:(b)))c", "a[bB]c"), E("((?i:a)(b(c)))", "[aA]bc"), E("(?i:(?-i:(a))b)", "a[bB]"),
  ER("(?q:a)"), ER("(?i"), ER("(?i:a"), ER("(?"),
};
// C33 escapes, strings, comments, white space
static const Ent T33[] = {
  E("\\a", "\\x07"), E("\\b", "\\x08"), E("\\e", "\\x1b"), E("\\f", "\\x0c"), E("\\n", "\\n"), E("\\r", "\\r"), E("\\t", "\\t"), E("\\v", "\\x0b"), E("\\0", "\\x00"), E("\\1", "\\x01"), E("\\7", "\\x07"), E("\\12", "\\n"), E("\\101", "A"), E("\\1011", "A1"), E("\\18", "\\x018"), E("\\0018", "\\x018"), E("\\60", "0"), E("\\177", "\\x7f"), EN("\\377", "\\xff"), EN("\\200", "\\x80"), E("\\x41", "A"), E("\\x4a", "J"), E("\\x4A", "J"), E("\\x0", "\\x00"), E("\\x00041", "A"), E("\\x7", "\\x07"), E("\\x7g", "\\x07g"), EN("\\xff", "\\xff"), EN("\\xfF", "\\xff"), EN("\\x80", "\\x80"), E("\\cA", "\\x01"), E("\\ca", "\\x01"), E("\\cZ", "\\x1a"), E("\\cz", "\\x1a"), E("\\c@", "\\x00"), E("\\cJx", "\\nx"),
  E("\\.", "\\."), E("\\*", "\\*"), E("\\(", "\\("), E("\\)", "\\)"), E("\\[", "\\["), E("\\]", "]"), E("\\{", "\\{"), E("\\}", "}"), E("\\|", "\\|"), E("\\?", "\\?"), E("\\+", "\\+"), E("\\\\", "\\\\"), E("\\\"", "\\x22"), E("\\/", "/"), E("\\^", "\\x5e"), E("\\$", "\\x24"), E("a^b", "a\\x5eb"), E("a$b", "a\\x24b"), E("\\q", "q"), E("\\ ", " "), E("\\-", "\\x2d"), E("a\\\\n", "a\\\\n"), E("a]", "a]"), E("a}", "a}"), E("a-b", "a-b"),
  E("\"a+b\"", "a\\+b"), E("\"(a\"", "\\(a"), E("\"[a]\"", "\\[a]"), E("\"{2}\"", "\\{2}"), E("\"a|b\"", "a\\|b"), E("\"\\n\"", "\\n"), E("\"\\\"\"", "\\x22"), E("\"a\\\\b\"", "a\\\\b"), E("\"a\"\"b\"", "ab"), E("\"a\"b", "ab"), E("a\"b\"c", "abc"), E("\"\"a", "a"), E("\"a*\"*", "a\\**"), E("(\"ab\")*c", "(ab)*c"), E("\"^\"", "\\x5e"), E("\"$\"", "\\x24"), E("\".\"", "\\."), E("\"/\"", "/"), E("\"a b\"", "a b"), E("\"(?#x)\"", "\\(\\?#x\\)"), E("\"\\x41\"", "A"), E("\"\\d\"", "[0-9]"), E("\"?\"+", "\\?+"), E("\"a\"|\"b\"", "a|b"),
  E("(?#c)a", "a"), E("a(?#c)b", "ab"), E("a(?#c)*b", "a*b"), E("a(?#x(y)z)b", "ab"), E("a(?#)b", "ab"), E("(?#a)(?#b)a", "a"), E("a(?#x\"y)b", "ab"), E("a|(?#z)b", "a|b"), E("(a(?#])b)", "ab"), E("(?#[)a(?#{)", "a"),
  EF(" a b ", "ab", XWS), EF("a\tb\nc\r", "abc", XWS), EF("a /* x */ b", "ab", XWS), EF("a/* * / ** */b", "ab", XWS), EF("/**/a", "a", XWS), EF("a\\ b", "a b", XWS), EF("a\" \"b", "a b", XWS), EF("a[ ]b", "a b", XWS), EF("a *b", "a*b", XWS), EF("a | b", "a|b", XWS), EF("( a b ) +", "(ab)+", XWS), EF("a {2} b", "aab", XWS), EF("a (?#c) b", "ab", XWS), EF("\v\fa", "a", XWS), EF("\"/* x\" /* y */", "/\\* x", XWS), EF("a/*b*//*c*/d", "ad", XWS), EF("a /* x */ (?#y) /* z */ b", "ab", XWS),
  E("(?x: a b )c", "abc"), E("(?x: ( ( a ) b ) c ) d", "abc d"), E("(?x: (a (?i: (b) ) b) )c", "a[bB]bc"), E("(?s:(.(.)).)b", "(.|\n)(.|\n)(.|\n)b"), E("(?x:a (?-x: b) c )d", "a bcd"), E("(?x: a /* c */ b) c", "ab c"), EF("(?-x: a) b", " ab", XWS), E(" a", " a"), ER("/"), E("a b", "a b"),
  ER("\\"), ER("\\x"), ER("\\xg"), ER("\\c"), ER("\\c1"), EN("\\400", ""), EN("\\x100", ""), ER("\"a"), ER("a\""), ER("(?#a"), ER("(?#(a)"), EF("a/*", "", XWS), EF("/* a *", "", XWS), ER("a/b"),
};
// C30 charset union / difference
static const Ent T30[] = {
  E("[a-z]{-}[aeiou]", "[bcdfghj-np-tv-z]"), E("[a-c]{+}[x-z]", "[a-cx-z]"), E("\\d{+}[a-f]", "[0-9a-f]"), E("\\w{-}\\d", "[a-zA-Z_]"), E("[a-z]{-}[m]{+}[0-9]", "[a-ln-z0-9]"), E("[a-z]{+}[0-9]{-}[m5]", "[a-ln-z0-46-9]"), E("[a-z]{-}[a-f]{-}[x-z]", "[g-w]"), E("[a-z]{+}[m]", "[a-z]"), E("[a-z]{-}[0-9]", "[a-z]"), E("[^a]{-}[b]", "[^ab]"), E("[^a]{+}[a]", "(.|\\n)"), E("[a]{+}[b]{+}[c]", "[abc]"), E("[a-c]{-}[b]{+}[b]", "[abc]"), E("[a-c]{+}[b]{-}[b]", "[ac]"), E("a{+}b", "[ab]"), E("[ab]{-}b", "a"), E(".{-}[a]", "[^a\\n]"), E("[a-z]{-}[aeiou]+x", "[bcdfghj-np-tv-z]+x"), E("x[a-z]{-}[c]y", "x[abd-z]y"), E("(a|[b-d]{-}[c])e", "(a|[bd])e"), E("[a-d]{-}[b]*e", "[acd]*e"), E("[a-d]{-}[b]|e", "[acd]|e"), E("\\S{-}[!-~]", "[^!-~ \\t\\n\\r\\x0b\\x0c]"), E("[a-e]{-}[bd]{2}", "[ace][ace]"), E("[abc]{-}[a]{-}[b]{+}[d]{-}[c]", "d"), EN("[\\x00-\\xff]{-}[\\x01-\\xff]", "\\x00"), EN("[\\x00-\\xff]{-}[\\x00-\\xfe]", "\\xff"), EN("[^\\xff]{+}\\xff", "[\\x00-\\xff]"), E("(?i:[a-c]{-}[b])", "[acAC]"), E("[a-c]{-}(?i:b)", "") , E("\\n{+}\\r", "[\\n\\r]"), E("[a-z]{-}\\w{+}[0]", ""), E("\"a\"{+}\"b\"", "[ab]"), E("a[b-d]{-}[c]{+}[z][x]", "a[bdz]x"),
  EM("{L}{-}[e]", "[a-df-z]", "L=[a-z]"), EM("{L}{+}{D}", "[a-z0-9]", "L=[a-z];D=[0-9]"), EM("[a-f]{-}{V}", "[bcdf]", "V=[ae]"), EM("{L}{-}{V}+0", "[bcdfghj-np-tv-z]+0", "L=[a-z];V=[aeiou]"), EM("{L}{+}\\d{-}{V}", "[bcdfghj-np-tv-z0-9]", "L=[a-z];V=[aeiou]"), EM("{C}x", "[bcd]x", "C=[a-d]{-}[a]"), EM("({L}{-}[b]){2}", "[ac][ac]", "L=[a-c]"),
  ER("[a]{-}[a]"), ER("[a-c]{-}[a-z]"), ER("(a){-}[a]"), ER("[a]{-}"), ER("[a]{+}"), ER("{-}[a]"), ER("[a]{+}(b)"), ER("[a]{-}b*{+}[c]"), ER("[a]{+"), ER("[a]{-]"), EMR("{M}{-}[a]", "M=ab"), EMR("{M}{-}[b]", "M=a*"), EMR("{M}{+}[b]", "M=a?"), EMR("[a]{+}{M}", "M=b+"), EMR("[ab]{-}{M}", "M=b{2}"), EMR("[a]{+}{M}", "M=a|b"), ER("[a]{+}[b]{-}[ab]"),
};
// C29 macros: behaves as the parenthesised definition
static const Ent T29[] = {
  EM("{A}", "a", "A=a"), EM("{A}b", "(a|c)b", "A=a|c"), EM("b{A}", "b(a|c)", "A=a|c"), EM("{A}*b", "(a|c)*b", "A=a|c"), EM("{A}+", "(ab)+", "A=ab"), EM("{A}?b", "(ac)?b", "A=ac"), EM("{A}{2}", "(ab)(ab)", "A=ab"), EM("{A}{2,3}", "(a|bc){2,3}", "A=a|bc"), EM("{A}{A}", "(a|b)(a|b)", "A=a|b"), EM("{A}{B}", "(ab)+(c|d)", "A=(ab)+;B=c|d"), EM("{A}|{B}", "ab|c+", "A=ab;B=c+"), EM("({A}|{B})c", "(a|b|c)c", "A=a|b;B=c"), EM("{B}", "xab", "A=ab;B=x{A}"), EM("{B}*c", "(x(a|b))*c", "A=a|b;B=x{A}"), EM("{B}", "(a|b)(a|b)", "A=a|b;B={A}{A}"), EM("{C}+d", "((a|b)(a|b)|c)+d", "A=a|b;B={A}{A};C={B}|c"), EM("{C}{C}", "(y(xa|b))(y(xa|b))", "A=xa;B={A}|b;C=y{B}"), EM("a{A}c", "a(b*)c", "A=b*"), EM("{A}", "a|b|c", "A=a|b|c"), EM("x{A}y|{A}", "x(a|b)y|(a|b)", "A=a|b"), EM("[a]{A}", "ab", "A=b"), EM("{A}b", "(a(b|c)?)b", "A=a(b|c)?"), EM("({A})b", "(a|b)b", "A=a|b"), EM("(({A}))+", "((a|b))+", "A=a|b"), EM("{A_1-b}c", "(ab)c", "A_1-b=ab"), EM("{_}c", "(a|b)c", "_=a|b"), EM("{A}{-}[b]", "[ac]", "A=[a-c]"), EM("{A}{A}{A}", "aaa", "A=a"), EM("{A}c", "((ab))c", "A=(ab)"), EM("{A}{1,2}c", "(a|b){1,2}c", "A=a|b"), EM("{A}{B}{A}", "(a)(b?)(a)", "A=a;B=b?"), EM("c{B}", "c((a|b)|(c|d))", "A=a|b;D=c|d;B={A}|{D}"), EM("({A}c)*d", "((ab|b)c)*d", "A=ab|b"), EM("{A}", "[^a]b", "A=[^a]b"), EM("x{A}{A}", "x(ab|c)(ab|c)", "A=ab|c"), EM("{A}{0,2}b", "(ac){0,2}b", "A=ac"), EM("{Ab}{A}", "(cd)(a|b)", "A=a|b;Ab=cd"), EM("{B}{C}", "((a|b)c)((a|b)d)", "A=a|b;B={A}c;C={A}d"), EM("{D}", "((((a|b)c)d)e)", "A=a|b;B={A}c;C={B}d;D={C}e"), EM("{A}", "[aA]b", "A=(?i:a)b"), EM("(?i:{A}c)", "(ab)[cC]", "A=ab"), EM("a\"{A}\"", "a\\{A}", "A=b"), EM("[{A}]", "[{A}]", "A=b"),
  EM("x{A}", "x\\^a", "A=^a"), EM("{A}x", "a\\$x", "A=a$"), EM("x{A}y", "x(\\^ab)y", "A=^ab"), EM("x{A}y", "x(ab\\$)y", "A=ab$"), EM("x{A}y", "x(\\^a\\$)y", "A=^a$"), EM("(x|y){A}", "(x|y)\\^a", "A=^a"), EM("x*{A}z", "x*(a\\$)z", "A=a$"),
  EMR("{X}", "A=a"), EMR("{A", "A=a"), EMR("{}", "A=a"), EMR("{1A}", "A=a"), EMR("{A B}", "A=a"), EMR("{a}", "A=a"), EMR("{AA}", "A=a"),
};
