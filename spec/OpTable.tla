------------------------------- MODULE OpTable -------------------------------
(* The operators of the calculator, as documented in README.md.             *)
EXTENDS Text

ArithPre  == [x \in {"$", "@", "+", "-"} |-> CASE x = "$" -> 0 [] x = "@" -> 8 [] OTHER -> 7]
ArithInf  == [x \in {"+", "-", "*", "/", "^", "C", "mod"} |->
                CASE x \in {"+", "-"} -> <<2, "L">>
                  [] x = "*" -> <<4, "L">>
                  [] x = "/" -> <<3, "L">>
                  [] x = "^" -> <<5, "R">>
                  [] OTHER -> <<1, "L">>]
ArithPost == [x \in {"!", "%", "'"} |-> IF x = "'" THEN 7 ELSE 6]
Unary == {"exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan",
          "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "abs", "ceil", "floor", "round",
          "trunc", "frac", "sgn", "fib", "gamma"}
Binary == {"deriv", "root", "log", "gcd", "lcm", "rand"}
Variadic == {"max", "min", "sum", "prod", "avg", "var"}
Constants == {"pi", "e", "phi", "clight", "csound", "ans"}
ArithFn == [x \in Unary \cup Binary \cup Variadic \cup Constants |->
              CASE x \in Unary -> 1 [] x \in Binary -> 2 [] x \in Variadic -> -1 [] OTHER -> 0]
Arith == [pre |-> ArithPre, inf |-> ArithInf, post |-> ArithPost, fn |-> ArithFn, glue |-> "*"]

(* The constraint language of rewrite rules extends it and implies no operator *)
Prop == [pre  |-> [x \in DOMAIN ArithPre \cup {"!"} |-> IF x = "!" THEN 4 ELSE ArithPre[x]],
         inf  |-> [x \in DOMAIN ArithInf \cup {"==", "!=", ">", "<", ">=", "<=", "||"} |->
                     IF x = "||" THEN <<0, "L">> ELSE IF x \in DOMAIN ArithInf THEN ArithInf[x] ELSE <<1, "L">>],
         post |-> ArithPost,
         fn   |-> [x \in DOMAIN ArithFn \cup {"type", "equal", "CONST", "VAR", "OP", "TRUE", "FALSE", "count"} |->
                     CASE x = "type" -> 1 [] x = "equal" -> 2 [] x = "count" -> -1
                       [] x \in {"CONST", "VAR", "OP", "TRUE", "FALSE"} -> 0
                       [] OTHER -> ArithFn[x]],
         glue |-> ""]
=============================================================================
