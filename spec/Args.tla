-------------------------------- MODULE Args --------------------------------
(* Command lines: options with handlers, some with one argument, among positional arguments. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* option -> <<handler, kind of its argument>>
OPTIONS == [x \in {"-b", "--bool"} |-> <<"b", "none">>] @@ [x \in {"-i", "--int"} |-> <<"i", "int">>] @@ [x \in {"--long", "--ll"} |-> <<"l", "long">>]
        @@ ("-u" :> <<"u", "unsigned">>) @@ [x \in {"--ulong", "--ull"} |-> <<"ul", "ulong">>] @@ [x \in {"-d", "--double"} |-> <<"d", "double">>]
        @@ ("-f" :> <<"d", "float">>) @@ ("--long-double" :> <<"ld", "ldouble">>) @@ [x \in {"-s", "--string"} |-> <<"s", "string">>]
        @@ [x \in {"-l", "--list"} |-> <<"list", "list">>] @@ ("--only-long" :> <<"o", "none">>) @@ [x \in {"-g", "--grp"} |-> <<"g", "none">>]
LONGOPTS == {"--unknown", "---", "--in", "--integer", "--="}     \* look like options and are none
SIGNED == [x \in {"0", "1", "-1", "42", "2147483647", "-2147483648"} |-> x] @@ ("+7" :> "7")
LONGS == SIGNED @@ [x \in {"2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807"} |-> x]
NATURALS == [x \in {"0", "1", "42", "2147483647", "2147483648", "4294967295"} |-> x] @@ ("+7" :> "7")
BIGNATS == NATURALS @@ [x \in {"4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615"} |-> x]
OUTOFRANGE == [int |-> {"2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"},
               long |-> {"9223372036854775808", "18446744073709551615", "18446744073709551616"},
               unsigned |-> {"4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"},
               ulong |-> {"18446744073709551616"}, double |-> {"1e999"}, float |-> {"1e999"}]
NONSENSE == {"x", "", "-", "--", "a,b", "a,,c", ",", "-x", "foo bar", "b"} \cup DOMAIN OPTIONS \cup LONGOPTS \cup {"-bb", "-ii"}
FLOATS == [x \in {"0", "1", "-1", "42"} |-> x \o ".000000"] @@ ("+7" :> "7.000000") @@ ("0.5" :> "0.500000") @@ ("-2.25" :> "-2.250000") @@ ("1e2" :> "100.000000")
Table(kind) == CASE kind = "int" -> SIGNED [] kind = "long" -> LONGS [] kind = "unsigned" -> NATURALS [] kind = "ulong" -> BIGNATS [] OTHER -> FLOATS
LISTS == ("a,b" :> <<"a", "b">>) @@ ("a,,c" :> <<"a", "", "c">>) @@ ("," :> <<"", "">>) @@ ("" :> <<>>)
\* what the argument s gives: <<"ok", call>>, <<"error">> or, where this specification does not say, <<"any">>
Given(o, s) == LET h == OPTIONS[o] IN
    IF h[2] = "string" THEN <<"ok", <<h[1], s>>>>
    ELSE IF h[2] = "list" THEN <<"ok", <<h[1]>> \o (IF s \in DOMAIN LISTS THEN LISTS[s] ELSE <<s>>)>>
    ELSE IF s \in DOMAIN Table(h[2]) THEN <<"ok", <<h[1], Table(h[2])[s]>>>>
    ELSE IF s \in NONSENSE \/ (h[2] \in DOMAIN OUTOFRANGE /\ s \in OUTOFRANGE[h[2]]) THEN <<"error">>
    ELSE <<"any">>
RECURSIVE Parse(_, _, _, _)
Parse(a, i, calls, pos) ==
    IF i > Len(a) THEN <<"ok", calls, pos>>
    ELSE IF a[i] = "--" THEN <<"ok", calls, pos \o SubSeq(a, i + 1, Len(a))>>
    ELSE IF a[i] \in DOMAIN OPTIONS THEN
        IF OPTIONS[a[i]][2] = "none" THEN Parse(a, i + 1, Append(calls, <<OPTIONS[a[i]][1], "1">>), pos)
        ELSE IF i = Len(a) THEN <<"error">>
        ELSE LET g == Given(a[i], a[i + 1]) IN IF g[1] = "ok" THEN Parse(a, i + 2, Append(calls, g[2]), pos) ELSE g
    ELSE IF a[i] \in LONGOPTS THEN Parse(a, i + 1, calls, pos)
    ELSE Parse(a, i + 1, calls, Append(pos, a[i]))
=============================================================================
