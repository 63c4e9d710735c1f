-------------------------------- MODULE Osnma --------------------------------
(* Galileo OSNMA receiver.  Cryptography is symbolic (Dolev-Yao):            *)
(*  - a key is <<c, i>>: number i of the one-way chain c; only the hash of    *)
(*    <<c, i>> with the time of slot i-1 gives <<c, i-1>>;                    *)
(*  - a MAC is the pair of its key and its message, a signature that of the   *)
(*    signing key and the message, a Merkle path is good or not;              *)
(*  - a record marked bad was altered in transit.                            *)
(* Time is counted in subframes (30 s), s.cfg.par is the parity of number 0.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

TagMode ==     \* 0 cross, 1 self, 2 flexible; two subframes
  (27 :> <<1,0,0,0,1,0,1,0,0,1,1,0>> @@ 31 :> <<1,0,0,1,0,1,0,0,1,1>> @@
   33 :> <<1,0,1,0,1,0,1,0,0,1,0,0>> @@ 34 :> <<1,2,1,2,1,0,1,2,0,1,0,0>> @@
   35 :> <<1,2,1,2,1,2,1,2,2,1,2,2>> @@ 36 :> <<1,2,1,2,1,1,2,0,1,0>> @@
   37 :> <<1,0,1,0,1,1,0,0,1,0>> @@ 38 :> <<1,2,1,2,1,1,2,2,1,2>> @@
   39 :> <<1,2,1,2,1,2,0,1>> @@ 40 :> <<1,0,1,1,1,0,0,0>> @@
   41 :> <<1,2,1,2,1,2,2,1>>)
TagAdkd ==
  (27 :> <<0,0,0,0,12,0,0,0,0,4,12,0>> @@ 31 :> <<0,0,0,12,0,0,0,0,12,4>> @@
   33 :> <<0,0,4,0,12,0,0,0,0,12,0,12>> @@ 34 :> <<0,0,4,0,12,0,0,0,0,12,0,12>> @@
   35 :> <<0,0,4,0,12,0,0,0,0,12,0,0>> @@ 36 :> <<0,0,4,0,12,0,0,0,12,12>> @@
   37 :> <<0,0,4,0,12,0,0,0,12,0>> @@ 38 :> <<0,0,4,0,12,0,0,0,12,0>> @@
   39 :> <<0,0,4,0,0,0,0,12>> @@ 40 :> <<0,0,4,12,0,0,0,12>> @@
   41 :> <<0,0,4,0,0,0,0,12>>)
NMAX == 36
UTC == NMAX + 1
Min(a, b) == IF a < b THEN a ELSE b

NOKEY == <<0, 0>>
OStart(c) ==
  [cfg |-> c, pk |-> {<<k[1], k[2]>> : k \in {c.keys[i] : i \in DOMAIN c.keys}},
   ok |-> FALSE, ver |-> FALSE, kr |-> <<>>,
   kc |-> FALSE, key |-> NOKEY, kn |-> -1,
   dsm |-> <<>>, cid |-> -1, mp |-> <<>>, mc |-> <<>>,
   wn |-> <<>>, wp |-> <<>>, wc |-> <<>>,
   slow |-> <<>>, vs |-> <<>>, utc |-> FALSE, pos |-> FALSE, pkr |-> FALSE]
Dsm(s, d) == s.cfg.dsm[d]
\* the messages one of whose blocks b has the content x
With(s, b, x) == {d \in DOMAIN s.cfg.dsm : b < Dsm(s, d).nb /\ Dsm(s, d).ids[b + 1] = x}

(* ------------------------- navigation data buffers ------------------------ *)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
RECURSIVE Words(_, _, _)
Words(f, ws, i) == IF i > Len(ws) THEN f
                   ELSE Words((ws[i][1] :> <<ws[i][2], ws[i][3]>>) @@ f, ws, i + 1)
Nav1(s, r) ==
  LET a == r.s
      n == Get(s.wn, a, <<>>) p == Get(s.wp, a, <<>>) c == Get(s.wc, a, <<>>)
      up(f, v) == (a :> v) @@ f
  IN [s EXCEPT !.wn = up(@, Words(n, r.w, 1)),
               !.wp = up(@, IF r.first THEN n ELSE p),
               !.wc = up(@, IF r.first THEN p ELSE c)]
RECURSIVE NavN(_, _, _)
NavN(s, rs, i) == IF i > Len(rs) THEN s ELSE NavN(Nav1(s, rs[i]), rs, i + 1)

\* the authenticated content: <<>> when incomplete or of mixed issue
NavDat(s, d) ==
  LET w == Get(s.wc, d, <<>>) IN
  IF d < 1 \/ d > NMAX \/ ~(1..5 \subseteq DOMAIN w) THEN <<>>
  ELSE IF \E k \in 2..4 : w[k][1] # w[1][1] THEN <<>>
  ELSE <<w[1][1], w[1][2], w[2][2], w[3][2], w[4][2], w[5][2]>>
UtcDat(s, a) ==
  LET w == Get(s.wc, a, <<>>) IN
  IF ~({6, 10} \subseteq DOMAIN w) THEN <<>> ELSE <<w[6][2], w[10][2]>>

(* ---------------------------- DSM and root key ---------------------------- *)
SigOk(s, d, hdr) == LET D == Dsm(s, d) IN
  ~D.bad /\ D.hdr = hdr /\ <<D.pkid, D.pk>> \in s.pk
\* bytes of the signed part still those of the root key that was loaded
HeadOk(s) == LET D == Dsm(s, s.kr) IN
  \A b \in 0..(D.hb - 1) : Get(s.dsm, D.did, <<>>).blk[b] = D.ids[b + 1]
RootCheck(s, hdr) ==
  IF s.ok /\ ~s.ver /\ HeadOk(s) /\ SigOk(s, s.kr, hdr) THEN [s EXCEPT !.ver = TRUE] ELSE s

\* an assembled root key message: consistent with its hash; it replaces a
\* verified one only if its signature is valid
Kroot(s, d, hdr) ==
  LET D == Dsm(s, d) IN
  IF D.kind # "kroot" \/ ~D.pdk \/ D.hdr # hdr \/ (s.ver /\ ~SigOk(s, d, hdr))
  THEN [ok |-> FALSE, s |-> s]
  ELSE [ok |-> TRUE, s |-> [s EXCEPT !.ok = TRUE, !.kr = d]]
Pkr(s, d) ==
  LET D == Dsm(s, d) IN
  IF D.kind # "pkr" \/ D.bad \/ ~s.cfg.root THEN [ok |-> FALSE, s |-> s]
  ELSE [ok |-> TRUE,
        s |-> [s EXCEPT !.pkr = TRUE,
               !.pk = IF D.oam THEN @
                      ELSE {q \in @ : q[1] # D.pkid} \cup {<<D.pkid, D.pk>>}]]

Hk(s, h) ==
  IF h.nmas \notin {1, 2} \/ h.cpks = 0 THEN s ELSE
  LET old == Get(s.dsm, h.did, [flg |-> {}, blk |-> <<>>, nb |-> 0])
      f0 == IF s.cid >= 0 /\ h.cid # s.cid THEN {} ELSE old.flg
      x == [flg |-> f0 \cup {h.bid}, blk |-> (h.bid :> h.x) @@ old.blk,
            nb |-> IF h.bid # 0 THEN old.nb ELSE Dsm(s, CHOOSE d \in With(s, 0, h.x) : TRUE).nb]
      s1 == [s EXCEPT !.cid = h.cid, !.dsm = (h.did :> x) @@ @]
      full == x.nb > 0 /\ 0..(x.nb - 1) \subseteq x.flg
      whole == {d \in With(s, 0, x.blk[0]) : \A b \in 0..(x.nb - 1) :
                                            x.blk[b] = Dsm(s, d).ids[b + 1]}
      d == CHOOSE d \in whole : TRUE
      r == IF h.did <= 11 THEN Kroot(s1, d, h.hdr) ELSE Pkr(s1, d)
  IN  IF ~full \/ whole = {} \/ ~r.ok THEN s1
      ELSE [r.s EXCEPT !.dsm[h.did].flg = {}]

(* -------------------------------- key chain ------------------------------- *)
\* the key of slot n leads to the last verified key, or to the root key
KeyOk(s, key, n) ==
  LET D == Dsm(s, s.kr) IN
  /\ key = <<D.c, n>>
  /\ IF s.kc THEN s.key[1] = D.c /\ n > s.key[2] ELSE n >= D.t0
KeyCheck(s, key, n) ==
  IF ~s.ver \/ n = s.kn THEN s
  ELSE IF KeyOk(s, key, n) THEN [s EXCEPT !.kc = TRUE, !.key = key, !.kn = n]
  ELSE [s EXCEPT !.kc = FALSE]

(* ---------------------------------- tags ---------------------------------- *)
Slot(lt, i, odd) == LET m == TagMode[lt] IN i + (IF odd THEN Len(m) \div 2 ELSE 0)
Odd(s, n) == (n + s.cfg.par) % 2 = 1
LookupOk(s, lt, a, m, n) ==
  /\ lt \in DOMAIN TagMode
  /\ 2 * Len(m.tags) = Len(TagMode[lt])
  /\ \A i \in 2..Len(m.tags) :
       LET j == Slot(lt, i, Odd(s, n)) IN
       /\ TagMode[lt][j] = 1 => m.tags[i].d = a
       /\ TagMode[lt][j] # 2 => m.tags[i].k = TagAdkd[lt][j]
\* information of the flexible tags, in order
RECURSIVE Flex(_, _, _, _, _)
Flex(s, lt, m, n, i) ==
  IF i > Len(m.tags) THEN <<>>
  ELSE (IF TagMode[lt][Slot(lt, i, Odd(s, n))] = 2
        THEN <<<<m.tags[i].d, m.tags[i].k>>>> ELSE <<>>) \o Flex(s, lt, m, n, i + 1)
SeqOk(s, lt, a, m, n) ==
  /\ ~m.seq.bad /\ m.seq.key = s.key /\ m.seq.a = a /\ m.seq.sf = n
  /\ m.seq.fl = Flex(s, lt, m, n, 1)

\* the MAC of tag number i sent by a in slot sf, over data dat
TagOk(t, key, a, sf, i, nmas, dat) ==
  /\ ~t.bad /\ dat # <<>> /\ t.key = key
  /\ t.m = [d |-> t.d, a |-> a, sf |-> sf, i |-> i, nmas |-> nmas, dat |-> dat]
Count(s, p, iod) ==
  [s EXCEPT !.vs = IF <<p, iod>> \in DOMAIN @ THEN [@ EXCEPT ![<<p, iod>>] = @ + 1]
                   ELSE (<<p, iod>> :> 1) @@ @]
Valid(s, p, iod) == <<p, iod>> \in DOMAIN s.vs /\ s.vs[<<p, iod>>] >= s.cfg.vmin

RECURSIVE Tags(_, _, _, _, _, _)
Tags(s, a, m, n, nmas, i) ==
  IF i > Len(m.tags) THEN s ELSE
  LET t == m.tags[i] d == IF i = 1 THEN a ELSE t.d k == IF i = 1 THEN 0 ELSE t.k
      dat == IF k = 4 THEN UtcDat(s, a) ELSE NavDat(s, d)
      s1 == IF k = 12
            THEN IF s.cfg.slow /\ i > 1
                 THEN [s EXCEPT !.slow = Append(@, [t |-> t, a |-> a, sf |-> n, i |-> i,
                                                    dat |-> dat])]
                 ELSE s
            ELSE IF k \notin {0, 4} \/ ~TagOk(t, s.key, a, n, i, nmas, dat) THEN s
            ELSE IF k = 4
            THEN LET x == Count(s, UTC, 0) IN
                 [x EXCEPT !.utc = @ \/ Valid(x, UTC, 0)]
            ELSE Count(s, d, dat[1])
  IN  Tags(s1, a, m, n, nmas, i + 1)

\* tags with delayed key: verified once, ten subframes later
RECURSIVE Slow(_, _, _, _)
Slow(s, n, nmas, i) ==
  IF i > Len(s.slow) THEN [s EXCEPT !.slow = SelectSeq(@, LAMBDA x : n - x.sf < 10)]
  ELSE LET x == s.slow[i] IN
       Slow(IF n - x.sf = 10 /\ TagOk(x.t, s.key, x.a, x.sf, x.i, nmas, x.dat)
            THEN Count(s, x.t.d, x.dat[1]) ELSE s, n, nmas, i + 1)
Pos(s) == [s EXCEPT !.pos = @ \/
  Cardinality({q[1] : q \in {r \in DOMAIN s.vs : r[1] # UTC /\ Valid(s, r[1], r[2])}}) >= 4]

Osn(s, e) ==
  IF ~e.full THEN s ELSE
  LET a == e.a n == e.n h == e.hk
      s1 == [s EXCEPT !.mp = (a :> Get(s.mc, a, <<>>)) @@ @,
                      !.mc = (a :> e.mack) @@ @]
      s2 == RootCheck(Hk(s1, h), h.hdr)
      s3 == KeyCheck(s2, e.mack.key, n)
      m == s3.mp[a]
      lt == Dsm(s3, s3.kr).lt
  IN  IF h.nmas \notin {1, 2} THEN s1
      ELSE IF ~s2.ok THEN s2
      ELSE IF ~s3.kc \/ m = <<>> THEN s3
      ELSE IF ~LookupOk(s3, lt, a, m, n - 1) \/ ~SeqOk(s3, lt, a, m, n - 1) THEN s3
      ELSE Pos(Slow(Tags(s3, a, m, n - 1, h.nmas, 1), n - 1, h.nmas, 1))

View(s) ==
  [rl |-> s.ok, rv |-> s.ver, kc |-> s.kc, utc |-> s.utc, pos |-> s.pos, pkr |-> s.pkr,
   vs |-> {<<q[1], q[2], s.vs[q]>> : q \in DOMAIN s.vs},
   pk |-> {q[1] : q \in s.pk}]
ODo(s, e) ==
  CASE e.op = "navs" -> [st |-> NavN(s, e.r, 1), out |-> <<>>]
    [] e.op = "osn" -> LET t == Osn(s, e) IN [st |-> t, out |-> View(t)]
    [] e.op = "pk" -> LET t == [s EXCEPT !.pk = {q \in @ : q[1] # e.id} \cup {<<e.id, e.tok>>}]
                      IN [st |-> t, out |-> View(t)]
    [] e.op = "chk" -> [st |-> s, out |-> [ok |-> Valid(s, e.p, e.iod)]]
OSets == {"vs", "pk"}
OInv(s) == (s.kc => s.ver) /\ (s.ver => s.ok)
==============================================================================
