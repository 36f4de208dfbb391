------------------------------- MODULE MCTable -------------------------------
(* Every table built by DEPTH operations of the alphabet in the file          *)
(* ALPHABET (replayed in the real code afterwards), and what the image of a   *)
(* table is to be, stated without the layout.                                *)
EXTENDS Table, FiniteSets, Json, IOUtils
VARIABLES t, h
AB == JsonDeserialize(IOEnv.ALPHABET)
Init == t = Empty /\ h = <<>>
Next == /\ Len(h) < AB.depth
        /\ \E i \in 1..Len(AB.ops) :
             /\ Allowed(t, AB.ops[i])
             /\ t' = Do(t, AB.ops[i])
             /\ h' = Append(h, i)
Emit == Len(h) < AB.depth \/ PrintT("OPS " \o ToJson(h))

\* number of characters: border characters are written with two
RECURSIVE Glyphs(_)
Glyphs(s) == IF s = "" THEN 0 ELSE IF Ch(s, 1) \in {"{", "}"} THEN 1 + Glyphs(From(s, 3)) ELSE 1 + Glyphs(From(s, 2))
RECURSIVE Times(_, _, _)
Times(p, s, i) == LET k == Find(s, p, i) IN IF k = 0 THEN 0 ELSE 1 + Times(p, s, k + 1)
RECURSIVE TimesIn(_, _)
TimesIn(p, ls) == IF ls = <<>> THEN 0 ELSE Times(p, Head(ls), 1) + TimesIn(p, Tail(ls))

Covers(r, c) == LET d == t.cell[r][c] IN {<<r + i, c + j>> : i \in 0..(d.sy - 1), j \in 0..(d.sx - 1)}
HeadSet == {<<r, c>> \in (1..Rows(t)) \X (1..t.nc) : t.cell[r][c].up = 0 /\ t.cell[r][c].back = 0}

\* spanning cells cover exactly the cells that name them as theirs: the grid is tiled
Tiled == /\ \A p, q \in HeadSet : p = q \/ Covers(p[1], p[2]) \cap Covers(q[1], q[2]) = {}
         /\ \A r \in 1..Rows(t), c \in 1..t.nc : LET d == t.cell[r][c] IN <<r, c>> \in Covers(r - d.up, c - d.back)
Rectangle == LET im == Image(t) IN \A i \in 1..Len(im) : Glyphs(im[i]) = Glyphs(im[1])
\* the image has as many lines and columns as rows and columns take up
Extent == LET y == Layout(t)
              im == Image(t)
          IN t.nc > 0 => /\ Len(im) = SumOf(y.H, 1, Rows(t)) + Cardinality({r \in 1..Rows(t) : y.hs[r]})
                         /\ im # <<>> => Glyphs(im[1]) = SumOf(y.W, 1, t.nc) + Cardinality({c \in 1..t.nc : y.vs[c]})
\* every line of every text is there, once for each cell having it
Lossless == LET im == Image(t)
                Has(p) == {q \in HeadSet : \E k \in 1..Len(t.cell[q[1]][q[2]].txt) : t.cell[q[1]][q[2]].txt[k] = p}
            IN \A w \in {AB.words[i] : i \in 1..Len(AB.words)} : TimesIn(w, im) = Cardinality(Has(w))
\* no column is wider than some text needs (stated for tables with one spanning cell at most)
Fits(W) == \A p \in HeadSet : LET d == t.cell[p[1]][p[2]]
                              IN d.set => TextW(d) <= SumOf(W, p[2], d.sx) + Count(LAMBDA j : VSlot(t, j), p[2], p[2] + d.sx - 1)
FitsH(H) == \A p \in HeadSet : LET d == t.cell[p[1]][p[2]]
                               IN d.set => TextH(d) <= SumOf(H, p[1], d.sy) + Count(LAMBDA j : HSlot(t, j), p[1], p[1] + d.sy - 1)
Tight == t.nc > 0 =>
         LET y == Layout(t) IN
         /\ Fits(y.W) /\ FitsH(y.H)
         /\ Cardinality({p \in HeadSet : t.cell[p[1]][p[2]].sx > 1}) <= 1 => \A c \in 1..t.nc : y.W[c] = 0 \/ ~Fits([y.W EXCEPT ![c] = @ - 1])
         /\ Cardinality({p \in HeadSet : t.cell[p[1]][p[2]].sy > 1}) <= 1 => \A r \in 1..Rows(t) : y.H[r] = 0 \/ ~FitsH([y.H EXCEPT ![r] = @ - 1])
Laws == Tiled /\ (t.nc > 0 /\ Layout(t).plain => Rectangle /\ Extent /\ Lossless /\ Tight)
=============================================================================
