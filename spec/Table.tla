-------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* Tables: a machine whose operations build a grid of cells, and the image   *)
(* of a table, line by line.                                                *)
(*                                                                         *)
(* Operations are sequences, e.g. <<"cell", "text">>, <<"span", 2, 1>>.      *)
(* In texts and images "~" stands for the escape character, and a border     *)
(* character is written by its arms: "{" (single) or "}" (double) and the    *)
(* sum of 1 (up), 2 (right), 4 (down) and 8 (left) as hexadecimal digit.     *)
(***************************************************************************)
EXTENDS Text

MAXC == 11
Max(a, b) == IF a > b THEN a ELSE b
None == [set |-> FALSE, up |-> 0, back |-> 0, sx |-> 1, sy |-> 1, txt |-> <<>>, h |-> "", v |-> "", L |-> "", A |-> ""]
FreshRow == [c \in 1..MAXC |-> None]
\* x, y: the cursor; up, back: how many rows above and columns left the cell is that spans into this one
Empty == [nc |-> 0, x |-> 1, y |-> 1, cell |-> <<FreshRow>>, rb |-> <<"n">>, vb |-> [c \in 1..MAXC |-> "n"],
          h |-> [c \in 1..MAXC |-> "l"], v |-> [c \in 1..MAXC |-> "t"]]

(* ------------------------------- texts --------------------------------- *)
RECURSIVE LinesOf(_)
LinesOf(s) == LET i == Find(s, "\n", 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o LinesOf(From(s, i + 1))
\* number of visible characters: color sequences (escape ... m) are not
RECURSIVE Width(_)
Width(s) == IF s = "" THEN 0 ELSE IF Ch(s, 1) = "~" THEN Width(From(s, Find(s, "m", 1) + 1)) ELSE 1 + Width(From(s, 2))
RECURSIVE MaxOf(_)
MaxOf(ns) == IF ns = <<>> THEN 0 ELSE Max(Head(ns), MaxOf(Tail(ns)))
TextW(c) == MaxOf([i \in 1..Len(c.txt) |-> Width(c.txt[i])])
TextH(c) == Len(c.txt)

(* ----------------------------- operations ------------------------------ *)
Rows(t) == Len(t.cell)
RECURSIVE WithRows(_, _)
WithRows(t, n) == IF Rows(t) >= n THEN t ELSE WithRows([t EXCEPT !.cell = Append(@, FreshRow), !.rb = Append(@, "n")], n)
Cur(t) == t.cell[t.y][t.x]
Upd(t, c) == [t EXCEPT !.cell[t.y][t.x] = c]
RECURSIVE Past(_, _, _)
Past(t, y, x) == IF x <= MAXC /\ t.cell[y][x].set THEN Past(t, y, x + 1) ELSE x
Put(t, txt) == LET u == Upd(t, [Cur(t) EXCEPT !.set = TRUE, !.txt = txt])
               IN [u EXCEPT !.nc = Max(@, t.x), !.x = Past(u, t.y, t.x)]

\* spans are cut before cells that are taken: first in width, then in height
Taken(t, y, x) == y <= Rows(t) /\ t.cell[y][x].set
SpanW(t, sx) == CHOOSE w \in 1..sx : (\A j \in 1..(w - 1) : ~Taken(t, t.y, t.x + j)) /\ (w = sx \/ Taken(t, t.y, t.x + w))
SpanH(t, w, sy) == CHOOSE g \in 1..sy : /\ \A i \in 1..(g - 1), j \in 0..(w - 1) : ~Taken(t, t.y + i, t.x + j)
                                        /\ g = sy \/ \E j \in 0..(w - 1) : Taken(t, t.y + g, t.x + j)
Span(t, sx, sy) ==
  LET w == SpanW(t, sx)
      g == SpanH(t, w, sy)
      u == WithRows(Upd(t, [Cur(t) EXCEPT !.sx = w, !.sy = g]), t.y + g - 1)
      Cell(y, x) == LET c == u.cell[y][x]  i == y - t.y  j == x - t.x
                    IN IF i \in 0..(g - 1) /\ j \in 0..(w - 1) /\ i + j > 0
                       THEN [c EXCEPT !.set = TRUE, !.up = i, !.back = j, !.L = IF j > 0 THEN "n" ELSE @, !.A = IF i > 0 THEN "n" ELSE @]
                       ELSE c
  IN [u EXCEPT !.nc = Max(@, t.x + w - 1), !.cell = [y \in 1..Rows(u) |-> [x \in 1..MAXC |-> Cell(y, x)]]]

VLine(t, c, b) == [t EXCEPT !.nc = Max(@, c), !.vb[c] = b]
HLine(t, b) == [t EXCEPT !.rb[t.y] = b]
Goto(t, x, y) == [WithRows(t, y) EXCEPT !.x = x, !.y = y]
NextRow(t) == IF t.y = Rows(t) THEN Goto(t, 1, t.y + 1) ELSE [t EXCEPT !.y = @ + 1, !.x = Past(t, t.y + 1, 1)]
Boxed(t, b) == LET u == HLine(VLine(Goto(t, 1, 1), 1, b), b)
               IN HLine(VLine(Goto(u, u.nc + 1, Rows(u)), u.nc + 1, b), b)

Allowed(t, o) ==
  LET free == t.x <= MAXC /\ ~Cur(t).set
  IN CASE o[1] \in {"cell", "gc", "fmt", "empty", "h", "v", "left", "above"} -> free
       [] o[1] = "span" -> free /\ Cur(t).sx = 1 /\ Cur(t).sy = 1 /\ t.x + o[2] - 1 <= MAXC
                           /\ \A i \in 0..(o[3] - 1), j \in 0..(o[2] - 1) :
                                (i + j > 0 /\ t.y + i <= Rows(t)) => t.cell[t.y + i][t.x + j].L \in {"", "n"} /\ t.cell[t.y + i][t.x + j].A \in {"", "n"}
       [] o[1] = "box" -> Max(t.nc, 1) < MAXC
       [] OTHER -> TRUE

Do(t, o) ==
  CASE o[1] \in {"cell", "gc", "fmt"} -> Put(t, LinesOf(o[2]))
    [] o[1] = "empty" -> Put(t, <<>>)
    [] o[1] = "row"   -> NextRow(t)
    [] o[1] = "span"  -> Span(t, o[2], o[3])
    [] o[1] = "pos"   -> Goto(t, o[2] + 1, o[3] + 1)
    [] o[1] = "h"     -> Upd(t, [Cur(t) EXCEPT !.h = o[2]])
    [] o[1] = "v"     -> Upd(t, [Cur(t) EXCEPT !.v = o[2]])
    [] o[1] = "hrow"  -> [t EXCEPT !.cell[t.y] = [c \in 1..MAXC |-> [t.cell[t.y][c] EXCEPT !.h = o[2]]]]
    [] o[1] = "vrow"  -> [t EXCEPT !.cell[t.y] = [c \in 1..MAXC |-> [t.cell[t.y][c] EXCEPT !.v = o[2]]]]
    [] o[1] = "left"  -> Upd(t, [Cur(t) EXCEPT !.L = o[2]])
    [] o[1] = "above" -> Upd(t, [Cur(t) EXCEPT !.A = o[2]])
    [] o[1] = "hline" -> HLine(t, o[2])
    [] o[1] = "vline" -> VLine(t, o[2] + 1, o[3])
    [] o[1] = "vlines" -> [t EXCEPT !.vb = [c \in 1..MAXC |-> IF c \in 2..t.nc THEN o[2] ELSE t.vb[c]]]
    [] o[1] = "box"   -> Boxed(t, o[2])
    \* default alignments of the first columns, as pairs such as "lt"
    [] o[1] = "def"   -> [t EXCEPT !.h = [c \in 1..MAXC |-> IF c < Len(o) THEN Ch(o[c + 1], 1) ELSE t.h[c]],
                                   !.v = [c \in 1..MAXC |-> IF c < Len(o) THEN Ch(o[c + 1], 2) ELSE t.v[c]]]

(* ------------------------------- layout -------------------------------- *)
\* a line between columns or rows takes up space where some cell, or the default, asks for it
VSlot(t, c) == t.vb[c] # "n" \/ \E r \in 1..Rows(t) : t.cell[r][c].L \notin {"", "n"}
HSlot(t, r) == t.rb[r] # "n" \/ \E c \in 1..MAXC : t.cell[r][c].A \notin {"", "n"}
RECURSIVE Count(_, _, _)      \* how many of a+1..b satisfy P
Count(P(_), a, b) == IF a >= b THEN 0 ELSE (IF P(b) THEN 1 ELSE 0) + Count(P, a, b - 1)

\* what the cells need, row by row: <<first, number, least sum>>
Heads(t) == SelectSeq([k \in 1..(Rows(t) * t.nc) |-> <<((k - 1) \div t.nc) + 1, ((k - 1) % t.nc) + 1>>],
                      LAMBDA p : LET c == t.cell[p[1]][p[2]] IN c.set /\ c.up = 0 /\ c.back = 0)
NeedW(t) == LET H == Heads(t) IN [k \in 1..Len(H) |-> LET c == t.cell[H[k][1]][H[k][2]]
               IN <<H[k][2], c.sx, Max(0, TextW(c) - Count(LAMBDA j : VSlot(t, j), H[k][2], H[k][2] + c.sx - 1))>>]
NeedH(t) == LET H == Heads(t) IN [k \in 1..Len(H) |-> LET c == t.cell[H[k][1]][H[k][2]]
               IN <<H[k][1], c.sy, Max(0, TextH(c) - Count(LAMBDA j : HSlot(t, j), H[k][1], H[k][1] + c.sy - 1))>>]
RECURSIVE SumOf(_, _, _)
SumOf(w, a, n) == IF n = 0 THEN 0 ELSE w[a] + SumOf(w, a + 1, n - 1)
\* cells that do not span decide; what spanning cells lack is then spread evenly, from the left
RECURSIVE Widen(_, _)
Widen(w, needs) ==
  IF needs = <<>> THEN w
  ELSE LET a == Head(needs)[1]  n == Head(needs)[2]
           lack == Max(0, Head(needs)[3] - SumOf(w, a, n))
       IN Widen([c \in DOMAIN w |-> IF c \in a..(a + n - 1) THEN w[c] + lack \div n + (IF c - a < lack % n THEN 1 ELSE 0) ELSE w[c]], Tail(needs))
Sizes(n, needs) ==
  LET Singles(c) == SelectSeq(needs, LAMBDA d : d[1] = c /\ d[2] = 1)
  IN Widen([c \in 1..n |-> LET s == Singles(c) IN MaxOf([i \in 1..Len(s) |-> s[i][3]])], needs)

\* Layout(t): the table with its sizes; the edges of an empty last row or column carry no lines
Layout(t) ==
  LET W == Sizes(t.nc, NeedW(t))
      H == Sizes(Rows(t), NeedH(t))
      Edge(r, c) == LET d == t.cell[r][c]
                    IN [d EXCEPT !.A = IF c = t.nc /\ W[t.nc] = 0 THEN "n" ELSE @,
                                 !.L = IF r = Rows(t) /\ c <= t.nc /\ H[Rows(t)] = 0 THEN "n" ELSE @]
      u == [t EXCEPT !.cell = [r \in 1..Rows(t) |-> [c \in 1..MAXC |-> Edge(r, c)]]]
  IN [t |-> u, W |-> W, H |-> H,
      vs |-> [c \in 1..t.nc |-> VSlot(u, c)], hs |-> [r \in 1..Rows(t) |-> HSlot(u, r)],
      plain |-> /\ \A c \in 1..t.nc : VSlot(u, c) = VSlot(t, c)       \* no line vanishes with the edges
                /\ \A r \in 1..Rows(t) : HSlot(u, r) = HSlot(t, r)]

(* -------------------------------- image -------------------------------- *)
Hex(n) == Ch("0123456789abcdef", n + 1)
Arm(b, n) == IF b = "n" THEN 0 ELSE n
L(y, r, c) == LET d == y.t.cell[r][c] IN IF d.L # "" THEN d.L ELSE y.t.vb[c]       \* line left of a cell
A(y, r, c) == LET d == y.t.cell[r][c] IN IF d.A # "" THEN d.A ELSE y.t.rb[r]       \* line above it
Bar(b, n) == CASE b = "n" -> " " [] b = "s" -> "{" \o Hex(n) [] b = "d" -> "}" \o Hex(n)
\* where lines meet: the arms are the lines that end there; a single one is not drawn
Joint(y, r, c) ==
  LET up == IF r > 1 THEN L(y, r - 1, c) ELSE "n"
      right == A(y, r, c)
      down == L(y, r, c)
      left == IF c > 1 THEN A(y, r, c - 1) ELSE "n"
      arms == Arm(up, 1) + Arm(right, 2) + Arm(down, 4) + Arm(left, 8)
      of(b) == Len(SelectSeq(<<up, right, down, left>>, LAMBDA x : x = b))
  IN IF arms \in {0, 1, 2, 4, 8} THEN " " ELSE Bar(IF of("d") > of("s") THEN "d" ELSE "s", arms)

RectW(y, r, c) == LET d == y.t.cell[r][c] IN SumOf(y.W, c, d.sx) + Count(LAMBDA j : y.vs[j], c, c + d.sx - 1)
RectH(y, r, c) == LET d == y.t.cell[r][c] IN SumOf(y.H, r, d.sy) + Count(LAMBDA j : y.hs[j], r, r + d.sy - 1)
Top(y, r) == SumOf(y.H, 1, r - 1) + Count(LAMBDA j : y.hs[j], 0, r)        \* lines above the content of row r

\* line n of the image (from 0) within the cell at r, c, which may span
Part(y, r, c, n) ==
  LET d == y.t.cell[r][c]
      w == RectW(y, r, c)
      v == IF d.v # "" THEN d.v ELSE y.t.v[c]
      h == IF d.h # "" THEN d.h ELSE y.t.h[c]
      lack == RectH(y, r, c) - TextH(d)
      i == n - Top(y, r) - (CASE v = "t" -> 0 [] v = "b" -> lack [] v = "c" -> lack \div 2)
      s == IF i \in 0..(TextH(d) - 1) THEN d.txt[i + 1] ELSE ""
      pad == w - Width(s)
      before == CASE h = "l" -> 0 [] h = "r" -> pad [] h = "c" -> pad \div 2
  IN Repeat(" ", before) \o s \o Repeat(" ", pad - before)

\* image line n, which is a line of row r (of its upper border), from column c
RECURSIVE ImageLine(_, _, _, _, _)
ImageLine(y, n, r, border, c) ==
  IF c > y.t.nc THEN ""
  ELSE LET d == y.t.cell[r][c]
           text == ~border \/ d.up > 0
           slot == IF ~y.vs[c] THEN "" ELSE IF border THEN Joint(y, r, c) ELSE Bar(L(y, r, c), 5)
           own == y.t.cell[r - d.up][c - d.back]
       IN IF text THEN slot \o Part(y, r - d.up, c - d.back, n) \o ImageLine(y, n, r, border, c - d.back + own.sx)
          ELSE slot \o Repeat(Bar(A(y, r, c), 10), y.W[c]) \o ImageLine(y, n, r, border, c + 1)
RECURSIVE ImageRows(_, _)
ImageRows(y, r) ==
  IF r > Rows(y.t) THEN <<>>
  ELSE (IF y.hs[r] THEN <<ImageLine(y, Top(y, r) - 1, r, TRUE, 1)>> ELSE <<>>)
       \o [k \in 1..y.H[r] |-> ImageLine(y, Top(y, r) + k - 1, r, FALSE, 1)]
       \o ImageRows(y, r + 1)
Image(t) == IF t.nc = 0 THEN <<>> ELSE LET y == TLCEval(Layout(t)) IN ImageRows(y, 1)
=============================================================================
