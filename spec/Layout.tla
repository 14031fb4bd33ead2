------------------------------- MODULE Layout -------------------------------
(* The layout of the two binary formats, as a reader of its own: which field *)
(* of which width and code follows which.  Every reader takes a document     *)
(*   [b |-> its bytes, t |-> known texts as <<[b |-> bytes, s |-> text]>>,   *)
(*    s |-> TRUE for a packet of the streaming format,                       *)
(*    m |-> the most elements that any list can have]                        *)
(* and a bit position, and gives <<what it read, the position after it>>.    *)
EXTENDS Stream

Bit(m, k) == (m \div Pow2(k)) % 2
List(Op(_, _), d, i, n) ==
  LET RECURSIVE L(_, _)
      L(k, j) == IF k = 0 \/ j > 8 * Len(d.b) THEN <<<<>>, j>>
                 ELSE LET r == Op(d, j)
                          q == L(k - 1, r[2])
                      IN <<<<r[1]>> \o q[1], q[2]>>
  IN IF n > d.m THEN <<<<>>, 8 * Len(d.b) + 1>> ELSE L(n, i)
Text(d, i) ==
  LET n == U(d.b, i, 8)
      s == Bytes(d.b, i + 8, n)
      K == {k \in 1..Len(d.t) : d.t[k].b = s}
  IN <<IF n = 0 THEN "" ELSE IF K = {} THEN "(a text that was never given)" ELSE d.t[CHOOSE k \in K : TRUE].s, i + 8 + 8 * n>>
Byte(d, i) == <<U(d.b, i, 8), i + 8>>
Vec(d, i) == <<<<Signed(d.b, i, 8), Signed(d.b, i + 8, 8), Signed(d.b, i + 16, 8)>>, i + 24>>

Avatar(d, i) ==
  LET ty == U(d.b, i + 16, 8)
      tx == Text(d, i + 24)
  IN <<[id |-> U(d.b, i, 8), lod |-> U(d.b, i + 8, 8), type |-> ty, mesh |-> IF ty = 0 THEN <<tx[1]>> ELSE <<>>], IF ty = 0 THEN tx[2] ELSE i + 24>>

\* the optional fields of a reference device; the file announces them from the last bit of the mask on, the stream from the first
Device(d, i) ==
  LET tx == Text(d, i + 8)
      m == U(d.b, tx[2] + 32, 12)
      B(k) == IF d.s THEN Bit(m, 11 - k) ELSE Bit(m, k)
      Off(k) == tx[2] + 44 + 32 * Cardinality({h \in 0..(k - 1) : B(h) = 1})
      F(k) == IF B(k) = 1 THEN <<Q32(d.b, Off(k))>> ELSE <<>>
  IN <<[id |-> U(d.b, i, 8), name |-> tx[1], mask |-> <<Mask32(d.b, tx[2])>>,
        maxF |-> F(0), minF |-> F(1), resF |-> F(2), maxA |-> F(3), imp |-> F(4), maxV |-> F(5), maxC |-> F(6), maxD |-> F(7), wei |-> F(8),
        siz |-> F(9), cus |-> IF B(10) = 1 THEN <<S32(d.b, Off(10))>> ELSE <<>>, type |-> IF B(11) = 1 THEN <<U(d.b, Off(11), 4)>> ELSE <<>>],
       Off(11) + 4 * B(11)>>

\* keyframes and effects of the library
LibKf(d, i) ==
  LET m == U(d.b, i, 3)
      ia == i + 3 + 16 * Bit(m, 0)
      iq == ia + 8 * Bit(m, 1)
  IN <<[p |-> IF Bit(m, 0) = 1 THEN <<U(d.b, i + 3, 16)>> ELSE <<>>, a |-> IF Bit(m, 1) = 1 THEN <<AmpOf(U(d.b, ia, 8))>> ELSE <<>>,
        f |-> IF Bit(m, 2) = 1 THEN <<U(d.b, iq, 16)>> ELSE <<>>], iq + 16 * Bit(m, 2)>>
RECURSIVE LibFx(_, _)
LibFx(d, i) ==
  LET sf == IF d.s THEN U(d.b, i + 18, 1) ELSE 0
      ip == IF d.s THEN i + 19 + 12 * sf ELSE i + 16
      ty == IF d.s THEN U(d.b, i + 16, 2) ELSE U(d.b, i + 41, 2)
      j == IF d.s THEN ip + 25 ELSE i + 43
      jk == j + (IF ty = Basis THEN 20 ELSE 0)
      ks == List(LibKf, d, jk + 16, U(d.b, jk, 16))
      ts == List(LibFx, d, ks[2] + 16, U(d.b, ks[2], 16))
  IN <<[NoFx EXCEPT !.id = U(d.b, i, 16), !.pos = U(d.b, ip, 25), !.type = ty, !.sem = IF sf = 1 THEN <<SemanticOf(U(d.b, i + 19, 12))>> ELSE <<>>,
                    !.phase = IF ty = Basis THEN <<PhaseOf(U(d.b, j, 16))>> ELSE <<>>, !.base = IF ty = Basis THEN <<U(d.b, j + 16, 4)>> ELSE <<>>,
                    !.kfs = ks[1], !.tl = ts[1]], ts[2]>>
Library(d, i) == List(LibFx, d, i + 16, U(d.b, i, 16))

\* the fields of a channel from its description on
ChanBody(d, i) ==
  LET tx == Text(d, i)
      j == tx[2]
      ref == U(d.b, j, 8)
      m == U(d.b, j + 72, 8)
      targets == Bit(m, 1) = 1 /\ Bit(m, 0) = 0
      bp == List(Byte, d, j + 112, U(d.b, j + 104, 8))
      ac == List(Vec, d, bp[2] + 8, U(d.b, bp[2], 8))
      k == IF targets THEN ac[2] ELSE j + 80 + 32 * Bit(m, 0)
      hasF == Mask32(d.b, k) # <<0, 0>>
      kd == IF hasF THEN k + 64 ELSE k + 32
      kv == IF Bit(m, 2) = 1 THEN kd + 24 ELSE kd
      vs == List(LAMBDA e, h : <<I32(e.b, h), h + 32>>, d, kv + 16, U(d.b, kv, 16))
  IN <<[desc |-> tx[1], ref |-> IF ref = 255 THEN <<>> ELSE <<ref>>, gain |-> S32(d.b, j + 8), mix |-> Q32(d.b, j + 40),
        mask |-> IF ~targets /\ Bit(m, 0) = 1 THEN Mask32(d.b, j + 80) ELSE <<0, 0>>,
        res |-> IF targets THEN <<Vec(d, j + 80)[1]>> ELSE <<>>, bpt |-> IF targets THEN <<bp[1]>> ELSE <<>>, act |-> IF targets THEN <<ac[1]>> ELSE <<>>,
        fs |-> IF hasF THEN <<U32(d.b, k)>> ELSE <<>>, sc |-> IF hasF THEN <<U32(d.b, k + 32)>> ELSE <<>>,
        dir |-> IF Bit(m, 2) = 1 THEN <<Vec(d, kd)[1]>> ELSE <<>>, vert |-> vs[1], prio |-> <<>>, id |-> 0, p |-> 0,
        n |-> U(d.b, vs[2], 8), bands |-> <<>>], vs[2] + 8>>

\* ------------------------------------------------------------ the file
FileChan(d, i) == LET c == ChanBody(d, i + 16) IN <<[c[1] EXCEPT !.id = U(d.b, i, 16)], c[2]>>
FilePerc(d, i) ==
  LET tx == Text(d, i + 16)
      j == tx[2]
      lib == Library(d, j + 24)
      dev == List(Device, d, lib[2] + 8, U(d.b, lib[2], 8))
      ch == List(FileChan, d, dev[2] + 16, U(d.b, dev[2], 16))
  IN <<[id |-> U(d.b, i, 8), mod |-> U(d.b, i + 8, 8), desc |-> tx[1], avatar |-> U(d.b, j, 8), ue |-> <<Signed(d.b, j + 8, 8)>>,
        pue |-> <<Signed(d.b, j + 16, 8)>>, lib |-> lib[1], dev |-> dev[1], chans |-> ch[1]], ch[2]>>
FileHead(d) ==
  LET v == Text(d, 0)
      p == Text(d, v[2])
      t == Text(d, p[2] + 8)
      s == Text(d, t[2])
      av == List(Avatar, d, s[2] + 8, U(d.b, s[2], 8))
      pc == List(FilePerc, d, av[2] + 8, U(d.b, av[2], 8))
  IN <<[version |-> v[1], profile |-> p[1], level |-> U(d.b, p[2], 8), date |-> t[1], desc |-> s[1], avatars |-> av[1], percs |-> pc[1]], pc[2]>>

FileKf(bt, d, i) ==
  IF bt = Vectorial
  THEN LET m == U(d.b, i, 3)
           ip == i + 3 + 8 * Bit(m, 0)
       IN <<[p |-> <<U(d.b, ip, 16)>>, a |-> IF Bit(m, 0) = 1 THEN <<AmpOf(U(d.b, i + 3, 8))>> ELSE <<>>,
             f |-> IF Bit(m, 1) = 1 THEN <<U(d.b, ip + 16, 16)>> ELSE <<>>], ip + 16 + 16 * Bit(m, 1)>>
  ELSE <<[p |-> <<U(d.b, i + 8, 16)>>, a |-> <<AmpOf(U(d.b, i, 8))>>, f |-> IF bt = Transient THEN <<U(d.b, i + 24, 16)>> ELSE <<>>],
         i + 24 + (IF bt = Transient THEN 16 ELSE 0)>>
\* top: an effect of the band itself (blocks of a wavelet band carry no position there)
RECURSIVE FileFx(_, _, _, _)
FileFx(bt, top, d, i) ==
  LET ty == U(d.b, i, 2)
      placed == ~(top /\ bt = Wavelet /\ ty = Basis)
      j == IF placed THEN i + 27 ELSE i + 2
      e == [NoFx EXCEPT !.type = ty, !.pos = IF placed THEN U(d.b, i + 2, 25) ELSE 0]
  IN CASE ty = Reference -> <<[e EXCEPT !.id = U(d.b, j, 16)], j + 16>>
       [] ty = Composite -> LET r == List(LAMBDA f, h : FileFx(bt, FALSE, f, h), d, j + 16, U(d.b, j, 16)) IN <<[e EXCEPT !.tl = r[1]], r[2]>>
       [] OTHER ->
          IF bt = Wavelet THEN LET n == U(d.b, j, 16) IN <<[e EXCEPT !.wb = IF j + 16 + 8 * n <= 8 * Len(d.b) THEN Bytes(d.b, j + 16, n) ELSE <<>>], j + 16 + 8 * n>>
          ELSE LET v == IF bt = Vectorial THEN 20 ELSE 0
                   r == List(LAMBDA f, h : FileKf(bt, f, h), d, j + v + 16, U(d.b, j + v, 16))
               IN <<[e EXCEPT !.phase = IF bt = Vectorial THEN <<PhaseOf(U(d.b, j, 16))>> ELSE <<>>,
                              !.base = IF bt = Vectorial THEN <<U(d.b, j + 16, 4)>> ELSE <<>>, !.kfs = r[1]], r[2]>>
\* a band; the block length of a wavelet band is a power of two of samples, at least 16
FileBand(d, i) ==
  LET bt == U(d.b, i, 3)
      j == i + 3 + (IF bt = Curve THEN 4 ELSE IF bt = Wavelet THEN 8 ELSE 0)
      up == U(d.b, j + 16, 16)
      code == U(d.b, i + 3, 8)
      blk == IF bt = Wavelet /\ up > 0 /\ code <= 16 THEN (Pow2(code + 4) * 1000) \div up ELSE 0
      r == List(LAMBDA f, h : FileFx(bt, TRUE, f, h), d, j + 48, U(d.b, j + 32, 16))
      fx == IF bt = Wavelet THEN [k \in 1..Len(r[1]) |-> IF r[1][k].type = Basis THEN [r[1][k] EXCEPT !.pos = (k - 1) * blk] ELSE r[1][k]] ELSE r[1]
  IN <<[type |-> bt, curve |-> IF bt = Curve THEN <<U(d.b, i + 3, 4)>> ELSE <<>>, blk |-> <<blk>>, lo |-> U(d.b, j, 16), up |-> up, fx |-> fx], r[2]>>
\* the bands follow all the headers, in their order
RECURSIVE FillChans(_, _, _), FillPercs(_, _, _)
FillChans(d, cs, i) == IF cs = <<>> THEN <<<<>>, i>>
                       ELSE LET b == List(FileBand, d, i, Head(cs).n)
                                r == FillChans(d, Tail(cs), b[2])
                            IN <<<<[Head(cs) EXCEPT !.bands = b[1]]>> \o r[1], r[2]>>
FillPercs(d, ps, i) == IF ps = <<>> THEN <<<<>>, i>>
                       ELSE LET c == FillChans(d, Head(ps).chans, i)
                                r == FillPercs(d, Tail(ps), c[2])
                            IN <<<<[Head(ps) EXCEPT !.chans = c[1]]>> \o r[1], r[2]>>
File(d) == LET h == FileHead(d)
               p == FillPercs(d, h[1].percs, h[2])
           IN <<[h[1] EXCEPT !.percs = p[1]], p[2]>>
FileDiff(x, d) == LET f == File(d) IN
  Ck(OnlyPadding(d.b, f[2]), "the file ends with its last band, padded to a byte") \cup BinDiff(x, f[1])

\* ------------------------------------------------------------ the metadata packets of the stream
HapticsPacket(d) ==
  LET v == Text(d, 0)
      p == Text(d, v[2])
      t == Text(d, p[2] + 8)
      s == Text(d, t[2])
      av == List(Avatar, d, s[2] + 16, U(d.b, s[2] + 8, 8))
  IN <<[version |-> v[1], profile |-> p[1], level |-> U(d.b, p[2], 8), date |-> t[1], desc |-> s[1], avatars |-> av[1], n |-> U(d.b, s[2], 8)], av[2]>>
Prio(n) == IF n = 0 THEN <<>> ELSE <<n>>
PerceptionPacket(d) ==
  LET tx == Text(d, 16)
      j == tx[2]
      sf == U(d.b, j + 32, 1)
      sc == Text(d, j + 33)
      k == IF sf = 1 THEN sc[2] ELSE j + 33
      dev == List(Device, d, k + 24, U(d.b, k + 16, 8))
  IN <<[id |-> U(d.b, 0, 8), prio |-> Prio(U(d.b, 8, 8)), desc |-> tx[1], mod |-> U(d.b, j, 8), avatar |-> U(d.b, j + 8, 8), nlib |-> U(d.b, j + 16, 16),
        scheme |-> IF sf = 1 THEN <<sc[1]>> ELSE <<>>, ue |-> <<Signed(d.b, k, 8)>>, pue |-> <<Signed(d.b, k + 8, 8)>>, dev |-> dev[1],
        n |-> U(d.b, dev[2], 16), lib |-> <<>>, chans |-> <<>>], dev[2] + 16>>
LibraryPacket(d) == LET l == Library(d, 8) IN <<[p |-> U(d.b, 0, 8), lib |-> l[1]], l[2]>>
ChannelPacket(d) == LET c == ChanBody(d, 32) IN <<[c[1] EXCEPT !.id = U(d.b, 0, 16), !.p = U(d.b, 16, 8), !.prio = Prio(U(d.b, 24, 8))], c[2]>>
BandPacket(d) ==
  LET bt == U(d.b, 40, 3)
      j == 43 + (IF bt = Curve THEN 4 ELSE IF bt = Wavelet THEN 8 ELSE 0)
  IN <<[id |-> U(d.b, 0, 8), p |-> U(d.b, 8, 8), c |-> U(d.b, 16, 16), prio |-> Prio(U(d.b, 32, 8)), type |-> bt,
        curve |-> IF bt = Curve THEN <<U(d.b, 43, 4)>> ELSE <<>>, blk |-> IF bt = Wavelet THEN <<U(d.b, 43, 8)>> ELSE <<0>>,
        lo |-> U(d.b, j, 16), up |-> U(d.b, j + 16, 16), n |-> U(d.b, j + 32, 16)], j + 48>>

\* the packets u of an initialization unit as the metadata of x (whose packet types are the right ones, in the right order)
InitDiff(x0, u, texts, most) ==
  LET x == Prune(x0)
      D(q) == [b |-> q.b, t |-> texts, s |-> TRUE, m |-> most]
      Of(ty) == SelectSeq(u, LAMBDA q : q.type = ty)
      h == HapticsPacket(D(u[2]))
      libs == Map(Of(PLibrary), LAMBDA q : LibraryPacket(D(q)))
      chans == Map(Of(PChannel), LAMBDA q : ChannelPacket(D(q)))
      bands == Map(Of(PBand), LAMBDA q : BandPacket(D(q)))
      percs == Map(Of(PPerception), LAMBDA q : PerceptionPacket(D(q)))
      LibOf(p) == LET L == SelectSeq(libs, LAMBDA l : l[1].p = p) IN IF L = <<>> THEN <<>> ELSE L[1][1].lib
      BandsOf(p, c) == Map(SelectSeq(bands, LAMBDA b : b[1].p = p /\ b[1].c = c), LAMBDA b : b[1])
      ChansOf(p) == Map(SelectSeq(chans, LAMBDA c : c[1].p = p), LAMBDA c : [c[1] EXCEPT !.bands = BandsOf(p, c[1].id)])
      y == [version |-> h[1].version, profile |-> h[1].profile, level |-> h[1].level, date |-> h[1].date, desc |-> h[1].desc, avatars |-> h[1].avatars,
            percs |-> Map(percs, LAMBDA p : [p[1] EXCEPT !.lib = LibOf(p[1].id), !.chans = ChansOf(p[1].id)])]
      m == StreamMetaDiff(x0, y)
      Ends(s, name) == UNION {Ck(OnlyPadding(s[k].d, s[k].i), name \o ": the packet ends with its last field, padded to a byte") : k \in 1..Len(s)}
      Pos(ty, s) == [k \in 1..Len(s) |-> [d |-> Of(ty)[k].b, i |-> s[k][2]]]
  IN Ck(OnlyPadding(u[1].b, 113), "initialization timing: the packet ends with its last field, padded to a byte") \cup
     Ends(Pos(PHaptics, <<h>>), "experience") \cup Ends(Pos(PPerception, percs), "perception") \cup Ends(Pos(PLibrary, libs), "library") \cup
     Ends(Pos(PChannel, chans), "channel") \cup Ends(Pos(PBand, bands), "band") \cup m \cup
     Ck(h[1].n = Len(x.percs), "announced number of perceptions") \cup
     Ck(\A k \in 1..Len(bands) : bands[k][1].id = k - 1, "band identifiers count from 0") \cup
     (IF m # {} THEN {}
      ELSE Ck(\A k \in 1..Len(x.percs) : percs[k][1].nlib = Len(x.percs[k].lib), "announced number of library effects") \cup
           Ck(\A k \in 1..Len(x.percs) : percs[k][1].n = Len(x.percs[k].chans), "announced number of channels") \cup
           Ck(\A k \in 1..Len(x.percs) : \A j \in 1..Len(x.percs[k].chans) :
                y.percs[k].chans[j].n = Len(x.percs[k].chans[j].bands), "announced number of bands") \cup
           Ck(\A k \in 1..Len(x.percs) : \A j \in 1..Len(x.percs[k].chans) : \A b \in 1..Len(x.percs[k].chans[j].bands) :
                y.percs[k].chans[j].bands[b].n \in {Len(x.percs[k].chans[j].bands[b].fx), Len(Flat(x.percs[k].chans[j].bands[b].fx, 0))},
              "announced number of effects"))
UnitsLayoutDiff(x, units, texts, most) ==
  LET us == Map(units, ParseUnit)
      types == InitTypes(Prune(x))
  IN UNION {IF us[k].type # InitUnit THEN {}
            ELSE IF Map(us[k].packets, LAMBDA q : q.type) # types THEN {"packets of an initialization unit"}
            ELSE InitDiff(x, us[k].packets, texts, most) : k \in 1..Len(us)}
=============================================================================
