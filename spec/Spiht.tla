------------------------------- MODULE Spiht -------------------------------
(* Set partitioning of a block of integer wavelet coefficients into a        *)
(* sequence of (bit, context) symbols, coded by Arith.  Coefficient i has    *)
(* the children 2i and 2i+1; coefficients 0..7 are the roots.                *)
EXTENDS Arith, Hap

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

BitsOf(v, n) == [k \in 1..n |-> (v \div Pow2(k - 1)) % 2]          \* least significant bit first
\* the scale of a block: k in units of 1/128; below 1 in steps of 1/128, else in steps of 1/8
WavBits(k) == IF k < 128 THEN <<0>> \o BitsOf(k, 7) ELSE <<1>> \o BitsOf((k - 128) \div 16, 7)
WavOf(b) == LET v == FoldLeft(LAMBDA a, i : a + b[i + 1] * Pow2(i - 1), 0, [i \in 1..7 |-> i]) IN
            IF b[1] = 0 THEN v ELSE 128 + 16 * v

\* ---- encoder.  X(i) is the coefficient, D[i] the largest descendant, G[i] the largest grandchild or deeper
Deep(X(_), n) ==
  LET RECURSIVE D(_)
      D(i) == IF 2 * i >= n THEN 0
              ELSE Max2(Max2(Abs(X(2 * i)), Abs(X(2 * i + 1))), Max2(D(2 * i), D(2 * i + 1)))
  IN [i \in 0..n - 1 |-> D(i)]
Sign(x) == IF x >= 0 THEN 1 ELSE 0
EncPass(b, D, s, lev) ==
  LET n == Len(b)
      X(i) == b[i + 1]
      Th == Pow2(lev)
      old == s.lsp
      G(i) == IF 4 * i + 3 >= n THEN 0 ELSE Max2(D[2 * i], D[2 * i + 1])
      Node(a, i, c) == IF Abs(X(i)) >= Th
                       THEN [a EXCEPT !.y = @ \o <<<<1, c>>, <<Sign(X(i)), 2>>>>, !.lsp = Append(@, i)]
                       ELSE [a EXCEPT !.y = Append(@, <<0, c>>), !.lip = Append(@, i)]
      one == FoldLeft(LAMBDA a, i : Node(a, i, 3), [s EXCEPT !.lip = <<>>], s.lip)
      RECURSIVE Sets(_, _)
      Sets(todo, a) ==
        IF todo = <<>> THEN a
        ELSE LET i == Head(todo)[1] IN
             IF Head(todo)[2] = 0
             THEN IF D[i] >= Th
                  THEN Sets(Tail(todo) \o (IF 4 * i + 3 < n THEN <<<<i, 1>>>> ELSE <<>>),
                            Node(Node([a EXCEPT !.y = Append(@, <<1, 4>>)], 2 * i, 5), 2 * i + 1, 5))
                  ELSE Sets(Tail(todo), [a EXCEPT !.y = Append(@, <<0, 4>>), !.lis = Append(@, Head(todo))])
             ELSE IF G(i) >= Th
                  THEN Sets(Tail(todo) \o <<<<2 * i, 0>>, <<2 * i + 1, 0>>>>, [a EXCEPT !.y = Append(@, <<1, 6>>)])
                  ELSE Sets(Tail(todo), [a EXCEPT !.y = Append(@, <<0, 6>>), !.lis = Append(@, Head(todo))])
      two == Sets(one.lis, [one EXCEPT !.lis = <<>>])
  IN [two EXCEPT !.y = @ \o [k \in 1..Len(old) |-> <<(Abs(X(old[k])) \div Th) % 2, 7>>]]
Start(y) == [y |-> y, lip |-> [k \in 1..8 |-> k - 1], lis |-> [k \in 1..4 |-> <<k + 3, 0>>], lsp |-> <<>>]
\* the symbols of block b with `lev` magnitude bits and scale bits w
Symbols(b, lev, w) ==
  LET D == Deep(LAMBDA i : b[i + 1], Len(b))
      hd == [k \in 1..4 |-> <<BitsOf(lev, 4)[k], 1>>] \o [k \in 1..8 |-> <<w[k], 1>>]
  IN FoldLeft(LAMBDA s, k : EncPass(b, D, s, lev - k + 1), Start(hd), [k \in 1..lev + 1 |-> k]).y
Empty(b, lev) == lev = 0 \/ \A k \in 1..Len(b) : b[k] = 0
EncodeBlock(b, lev, w) == IF Empty(b, lev) THEN <<>> ELSE Encode(Symbols(b, lev, w))
\* what the format can carry: every magnitude below 2^(lev + 1)
Fits(b, lev) == lev \in 0..15 /\ \A k \in 1..Len(b) : Abs(b[k]) < Pow2(lev + 1)

\* ---- decoder of any bits for a block of n coefficients
Get(a, c) == <<DecSym(a.d, c), [a EXCEPT !.d = DecStep(a.d, c)]>>
GetMany(a, c, k) == FoldLeft(LAMBDA s, x : [a |-> Get(s.a, c)[2], y |-> Append(s.y, Get(s.a, c)[1])], [a |-> a, y |-> <<>>], [x \in 1..k |-> x])
DecPass(n, s, lev) ==
  LET Th == Pow2(lev)
      old == s.lsp
      Node(a, i, c) == LET g == Get(a, c) IN
        IF g[1] = 1 THEN LET h == Get(g[2], 2) IN
                         [h[2] EXCEPT !.x[i + 1] = IF h[1] = 1 THEN Th ELSE -Th, !.lsp = Append(@, i)]
        ELSE [g[2] EXCEPT !.lip = Append(@, i)]
      one == FoldLeft(LAMBDA a, i : Node(a, i, 3), [s EXCEPT !.lip = <<>>], s.lip)
      RECURSIVE Sets(_, _)
      Sets(todo, a) ==
        IF todo = <<>> THEN a
        ELSE LET i == Head(todo)[1]
                 g == Get(a, IF Head(todo)[2] = 0 THEN 4 ELSE 6) IN
             IF g[1] = 0 THEN Sets(Tail(todo), [g[2] EXCEPT !.lis = Append(@, Head(todo))])
             ELSE IF Head(todo)[2] = 0
             THEN Sets(Tail(todo) \o (IF 4 * i + 3 < n THEN <<<<i, 1>>>> ELSE <<>>), Node(Node(g[2], 2 * i, 5), 2 * i + 1, 5))
             ELSE Sets(Tail(todo) \o <<<<2 * i, 0>>, <<2 * i + 1, 0>>>>, g[2])
      two == Sets(one.lis, [one EXCEPT !.lis = <<>>])
      Refine(a, i) == LET g == Get(a, 7) IN
        IF g[1] = 1 THEN [g[2] EXCEPT !.x[i + 1] = IF @ > 0 THEN @ + Th ELSE @ - Th] ELSE g[2]
  IN FoldLeft(Refine, two, old)
DecodeBlock(bits, n) ==
  LET a0 == [d |-> DecInit(Fresh, bits), lip |-> [k \in 1..8 |-> k - 1], lis |-> [k \in 1..4 |-> <<k + 3, 0>>], lsp |-> <<>>,
             x |-> [k \in 1..n |-> 0]]
      h == GetMany(a0, 1, 4)
      w == GetMany(h.a, 1, 8)
      lev == FoldLeft(LAMBDA a, i : a + h.y[i] * Pow2(i - 1), 0, <<1, 2, 3, 4>>)
      s == FoldLeft(LAMBDA s, k : DecPass(n, s, lev - k + 1), w.a, [k \in 1..lev + 1 |-> k])
  IN [x |-> s.x, lev |-> lev, wav |-> WavOf(w.y)]
=============================================================================
