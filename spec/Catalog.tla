------------------------------- MODULE Catalog ------------------------------
(* The catalog of a database: schemas by name, and in each tables and views  *)
(* by name. Names are equal without regard to case and keep their spelling.  *)
(*  d : set of [at, objects : set of [at, o]]; o = [n, view, q, key, cols]   *)
(* where at is the name under which something is found.                      *)
EXTENDS Lib

Empty == {}
\* upper case of the letters the checks use: ASCII, and a few others
Pairs == {<<233, 201>>, <<255, 376>>, <<945, 913>>, <<1103, 1071>>, <<1078, 1046>>, <<66600, 66560>>}
Fold(c) == IF c < 128 THEN UpperC(c) ELSE IF \E p \in Pairs : p[1] = c THEN (CHOOSE p \in Pairs : p[1] = c)[2] ELSE c
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Fold(x[i]) = Fold(y[i])

Has(S, n) == \E x \in S : Same(x.at, n)
Get(S, n) == CHOOSE x \in S : Same(x.at, n)

\* a schema can be created once
Create(d, n) == IF Has(d, n) THEN [ok |-> FALSE, d |-> d] ELSE [ok |-> TRUE, d |-> d \cup {[at |-> n, objects |-> {}]}]
\* an object put where there is one takes its place (under the name it was found by)
Put(d, n, o) ==
  IF ~Has(d, n) THEN [ok |-> FALSE, d |-> d]
  ELSE LET s == Get(d, n)
           os == IF Has(s.objects, o.n) THEN LET x == Get(s.objects, o.n) IN (s.objects \ {x}) \cup {[at |-> x.at, o |-> o]}
                 ELSE s.objects \cup {[at |-> o.n, o |-> o]}
       IN  [ok |-> TRUE, d |-> (d \ {s}) \cup {[s EXCEPT !.objects = os]}]
Describe(d, n, m) ==
  IF ~Has(d, n) THEN [ok |-> FALSE, cols |-> <<>>]
  ELSE LET s == Get(d, n) IN IF ~Has(s.objects, m) THEN [ok |-> FALSE, cols |-> <<>>] ELSE [ok |-> TRUE, cols |-> Get(s.objects, m).o.cols]

\* what a description of columns consists of, as columns
Text(s) == LET code == [x \in {"_"} \cup {"a","d","e","i","k","l","m","n","o","p","r","t","u","y"} |->
                          CASE x = "_" -> 95 [] x = "a" -> 97 [] x = "d" -> 100 [] x = "e" -> 101 [] x = "i" -> 105 [] x = "k" -> 107
                            [] x = "l" -> 108 [] x = "m" -> 109 [] x = "n" -> 110 [] x = "o" -> 111 [] x = "p" -> 112 [] x = "r" -> 114
                            [] x = "t" -> 116 [] x = "u" -> 117 [] OTHER -> 121]
           IN  [i \in 1..Len(s) |-> code[s[i]]]
Meta == <<[n |-> Text(<<"n","a","m","e">>), t |-> "varchar", nn |-> TRUE, pk |-> TRUE],
          [n |-> Text(<<"n","o","t","_","n","u","l","l">>), t |-> "numeric", nn |-> TRUE, pk |-> FALSE],
          [n |-> Text(<<"p","r","i","m","a","r","y","_","k","e","y">>), t |-> "numeric", nn |-> TRUE, pk |-> FALSE],
          [n |-> Text(<<"d","a","t","a","t","y","p","e">>), t |-> "varchar", nn |-> TRUE, pk |-> FALSE]>>
=============================================================================
