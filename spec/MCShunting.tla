----------------------------- MODULE MCShunting ------------------------------
EXTENDS Shunting, OpTable, IOUtils

\* small tables in which every pair of neighbours has equal precedence
\* somewhere, and the calculator's own
C1 == [pre |-> [x \in {"-", "@"} |-> IF x = "-" THEN 3 ELSE 5],
       inf |-> [x \in {"+", "*", ";"} |-> CASE x = "+" -> <<3, "L">> [] x = "*" -> <<5, "R">> [] OTHER -> <<4, "R">>],
       post |-> [x \in {"!", "?"} |-> IF x = "!" THEN 3 ELSE 5],
       fn |-> [x \in {"f", "h", "k"} |-> CASE x = "f" -> 1 [] x = "h" -> -1 [] OTHER -> 0],
       glue |-> ";"]
C2 == [pre |-> [x \in {"-", "f"} |-> 2], inf |-> [x \in {"+", "=>"} |-> IF x = "+" THEN <<2, "L">> ELSE <<1, "R">>],
       post |-> [x \in {"=", "+"} |-> 3], fn |-> [x \in {"f", "c"} |-> IF x = "f" THEN 2 ELSE 0], glue |-> ""]
C4 == [pre |-> [x \in {"-", "!"} |-> IF x = "-" THEN 0 ELSE 9],
       inf |-> [x \in {"&", "^", "|"} |-> CASE x = "&" -> <<0, "L">> [] x = "^" -> <<9, "R">> [] OTHER -> <<7, "L">>],
       post |-> [x \in {"'", "%"} |-> IF x = "%" THEN 0 ELSE 9], fn |-> [x \in {"v"} |-> -1], glue |-> "&"]
C5 == [pre |-> [x \in {"-", "!"} |-> IF x = "-" THEN 9 ELSE 8],
       inf |-> [x \in {"&", "^"} |-> IF x = "&" THEN <<9, "R">> ELSE <<8, "L">>],
       post |-> [x \in {"'", "%"} |-> IF x = "%" THEN 8 ELSE 9], fn |-> [x \in {"f"} |-> 2], glue |-> "&"]
C6 == [pre |-> [x \in {"-"} |-> 3], inf |-> [x \in {"+", "^"} |-> IF x = "+" THEN <<3, "L">> ELSE <<200, "R">>],
       post |-> [x \in {"!"} |-> 4], fn |-> [x \in {"f", "g"} |-> IF x = "f" THEN -1 ELSE 1], glue |-> "f"]
C7 == [C6 EXCEPT !.fn = [x \in {"h", "k"} |-> IF x = "h" THEN 2 ELSE 0], !.glue = "h"]
MCCtx == CASE IOEnv.WHICH = "1" -> C1 [] IOEnv.WHICH = "2" -> C2 [] IOEnv.WHICH = "4" -> C4 [] IOEnv.WHICH = "5" -> C5 [] IOEnv.WHICH = "6" -> C6 [] IOEnv.WHICH = "7" -> C7 [] OTHER -> Arith
MCAlphabet == CASE IOEnv.WHICH = "1" -> {"x", "-", "@", "+", "*", "!", "?", "(", ")", ",", "f", "h", "k"}
                [] IOEnv.WHICH = "2" -> {"x", "-", "f", "+", "=>", "=", "c", "(", ")", ","}
                [] IOEnv.WHICH = "4" -> {"x", "-", "!", "&", "^", "|", "'", "%", "(", ")", "v"}
                [] IOEnv.WHICH = "5" -> {"x", "-", "!", "&", "^", "'", "%", "(", ")", ",", "f"}
                [] IOEnv.WHICH = "6" -> {"x", "-", "^", "!", "(", ")", ",", "f", "g"}
                [] IOEnv.WHICH = "7" -> {"x", "-", "+", "!", "(", ")", ",", "h", "k"}
                [] OTHER -> {"x", "2", "-", "^", "*", "/", "!", "'", "(", ")", ",", "sin", "max", "pi", "root", "mod"}
MCMaxTokens == CASE IOEnv.DEPTH = "4" -> 4 [] IOEnv.DEPTH = "5" -> 5 [] IOEnv.DEPTH = "6" -> 6 [] IOEnv.DEPTH = "7" -> 7 [] IOEnv.DEPTH = "8" -> 8 [] OTHER -> 3
=============================================================================
