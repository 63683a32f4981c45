------------------------------- MODULE Keccak -------------------------------
(* FIPS 202, executable.  The state is a sequence of 25 lanes (64-bit words *)
(* of Words.tla); lane A[x,y] of the standard is state[5*y + x + 1].        *)
(* Rotation offsets and round constants are computed from the definitions   *)
(* of the standard (section 3.2.2 and algorithm 5), not transcribed.        *)
EXTENDS Words, SequencesExt

---------------------------------------------------------------------------
(* rho offsets: walk (x,y) <- (y, (2x+3y) mod 5) from (1,0), t = 0..23 *)
LOCAL RhoWalk ==
  FoldLeft(LAMBDA acc, t :
             [pos |-> <<acc.pos[2], (2 * acc.pos[1] + 3 * acc.pos[2]) % 5>>,
              off |-> [acc.off EXCEPT ![5 * acc.pos[2] + acc.pos[1] + 1] =
                         ((t * (t + 1)) \div 2) % 64]],
           [pos |-> <<1, 0>>, off |-> [i \in 1..25 |-> 0]],
           [t \in 1..24 |-> t])
RhoOff == RhoWalk.off

(* round constants: LFSR rc(t), algorithm 5 *)
LOCAL LfsrStep(R) ==       \* R = 8 bits, R[1] is R[0] of the standard
  LET Q == <<0>> \o R      \* 9 bits, Q[i+1] is R[i]
  IN  <<(Q[1] + Q[9]) % 2, Q[2], Q[3], Q[4], (Q[5] + Q[9]) % 2,
        (Q[6] + Q[9]) % 2, (Q[7] + Q[9]) % 2, Q[8]>>
RcBits ==            \* RcBits[t+1] = rc(t), t = 0..167
  FoldLeft(LAMBDA acc, t : [R |-> LfsrStep(acc.R), out |-> Append(acc.out, acc.R[1])],
           [R |-> <<1,0,0,0,0,0,0,0>>, out |-> <<>>], [t \in 1..168 |-> t]).out
LOCAL RcLane(ir) ==        \* bits at positions 2^j - 1, j = 0..6
  LET b(j) == RcBits[j + 7 * ir + 1]
  IN  <<b(0) + 2 * b(1) + 8 * b(2) + 128 * b(3) + 32768 * b(4), 32768 * b(5), 0, 32768 * b(6)>>
RCDef == [ir \in 1..24 |-> RcLane(ir - 1)]
\* the values, written out (RCDef = RC is checked by SelfTest.tla)
RC == <<<<1, 0, 0, 0>>, <<32898, 0, 0, 0>>, <<32906, 0, 0, 32768>>, <<32768, 32768, 0, 32768>>,
        <<32907, 0, 0, 0>>, <<1, 32768, 0, 0>>, <<32897, 32768, 0, 32768>>, <<32777, 0, 0, 32768>>,
        <<138, 0, 0, 0>>, <<136, 0, 0, 0>>, <<32777, 32768, 0, 0>>, <<10, 32768, 0, 0>>,
        <<32907, 32768, 0, 0>>, <<139, 0, 0, 32768>>, <<32905, 0, 0, 32768>>, <<32771, 0, 0, 32768>>,
        <<32770, 0, 0, 32768>>, <<128, 0, 0, 32768>>, <<32778, 0, 0, 0>>, <<10, 32768, 0, 32768>>,
        <<32897, 32768, 0, 32768>>, <<32896, 0, 0, 32768>>, <<1, 32768, 0, 0>>, <<32776, 32768, 0, 32768>>>>

PiSrc == [i \in 1..25 |-> LET x == (i-1) % 5  y == (i-1) \div 5
                           IN  5 * x + ((x + 3 * y) % 5) + 1]

---------------------------------------------------------------------------
\* The step mappings are written out lane by lane (explicit tuples are evaluated
\* once by TLC); KeccakTables below states what the written-out indices and
\* offsets must be, and SelfTest.tla checks it.
LOCAL Theta(A) ==
  LET
    c0 == Xor64(Xor64(Xor64(A[1], A[6]), Xor64(A[11], A[16])), A[21])
    c1 == Xor64(Xor64(Xor64(A[2], A[7]), Xor64(A[12], A[17])), A[22])
    c2 == Xor64(Xor64(Xor64(A[3], A[8]), Xor64(A[13], A[18])), A[23])
    c3 == Xor64(Xor64(Xor64(A[4], A[9]), Xor64(A[14], A[19])), A[24])
    c4 == Xor64(Xor64(Xor64(A[5], A[10]), Xor64(A[15], A[20])), A[25])
    d0 == Xor64(c4, Rotl64(c1, 1))
    d1 == Xor64(c0, Rotl64(c2, 1))
    d2 == Xor64(c1, Rotl64(c3, 1))
    d3 == Xor64(c2, Rotl64(c4, 1))
    d4 == Xor64(c3, Rotl64(c0, 1))
  IN <<Xor64(A[1], d0), Xor64(A[2], d1), Xor64(A[3], d2), Xor64(A[4], d3), Xor64(A[5], d4),
       Xor64(A[6], d0), Xor64(A[7], d1), Xor64(A[8], d2), Xor64(A[9], d3), Xor64(A[10], d4),
       Xor64(A[11], d0), Xor64(A[12], d1), Xor64(A[13], d2), Xor64(A[14], d3), Xor64(A[15], d4),
       Xor64(A[16], d0), Xor64(A[17], d1), Xor64(A[18], d2), Xor64(A[19], d3), Xor64(A[20], d4),
       Xor64(A[21], d0), Xor64(A[22], d1), Xor64(A[23], d2), Xor64(A[24], d3), Xor64(A[25], d4)>>

\* rho then pi: A'[x,y] = rot(A, offset)[(x + 3y) mod 5, x]
LOCAL RhoPi(A) ==
  <<A[1], Rotl64(A[7], 44), Rotl64(A[13], 43), Rotl64(A[19], 21), Rotl64(A[25], 14),
    Rotl64(A[4], 28), Rotl64(A[10], 20), Rotl64(A[11], 3), Rotl64(A[17], 45), Rotl64(A[23], 61),
    Rotl64(A[2], 1), Rotl64(A[8], 6), Rotl64(A[14], 25), Rotl64(A[20], 8), Rotl64(A[21], 18),
    Rotl64(A[5], 27), Rotl64(A[6], 36), Rotl64(A[12], 10), Rotl64(A[18], 15), Rotl64(A[24], 56),
    Rotl64(A[3], 62), Rotl64(A[9], 55), Rotl64(A[15], 39), Rotl64(A[16], 41), Rotl64(A[22], 2)>>

LOCAL Chi(B) ==
  <<Xor64(B[1], And64(Not64(B[2]), B[3])),
    Xor64(B[2], And64(Not64(B[3]), B[4])),
    Xor64(B[3], And64(Not64(B[4]), B[5])),
    Xor64(B[4], And64(Not64(B[5]), B[1])),
    Xor64(B[5], And64(Not64(B[1]), B[2])),
    Xor64(B[6], And64(Not64(B[7]), B[8])),
    Xor64(B[7], And64(Not64(B[8]), B[9])),
    Xor64(B[8], And64(Not64(B[9]), B[10])),
    Xor64(B[9], And64(Not64(B[10]), B[6])),
    Xor64(B[10], And64(Not64(B[6]), B[7])),
    Xor64(B[11], And64(Not64(B[12]), B[13])),
    Xor64(B[12], And64(Not64(B[13]), B[14])),
    Xor64(B[13], And64(Not64(B[14]), B[15])),
    Xor64(B[14], And64(Not64(B[15]), B[11])),
    Xor64(B[15], And64(Not64(B[11]), B[12])),
    Xor64(B[16], And64(Not64(B[17]), B[18])),
    Xor64(B[17], And64(Not64(B[18]), B[19])),
    Xor64(B[18], And64(Not64(B[19]), B[20])),
    Xor64(B[19], And64(Not64(B[20]), B[16])),
    Xor64(B[20], And64(Not64(B[16]), B[17])),
    Xor64(B[21], And64(Not64(B[22]), B[23])),
    Xor64(B[22], And64(Not64(B[23]), B[24])),
    Xor64(B[23], And64(Not64(B[24]), B[25])),
    Xor64(B[24], And64(Not64(B[25]), B[21])),
    Xor64(B[25], And64(Not64(B[21]), B[22]))>>

KeccakTables ==
  /\ PiSrc = <<1, 7, 13, 19, 25, 4, 10, 11, 17, 23, 2, 8, 14, 20, 21, 5, 6, 12, 18, 24, 3, 9, 15, 16, 22>>
  /\ [i \in 1..25 |-> RhoOff[PiSrc[i]]] = <<0, 44, 43, 21, 14, 28, 20, 3, 45, 61, 1, 6, 25, 8, 18, 27, 36, 10, 15, 56, 62, 55, 39, 41, 2>>
  /\ RCDef = RC

LOCAL Round(A, k) == LET B == Chi(RhoPi(Theta(A))) IN [B EXCEPT ![1] = Xor64(@, k)]

LOCAL Idx == [i \in 1..24 |-> i]
KeccakF(A) == FoldLeft(LAMBDA S, i : Round(S, RC[i]), A, Idx)

---------------------------------------------------------------------------
(* byte view of the state: byte k (0-based) is byte k%8 of lane k\div 8 *)
ZeroState == [i \in 1..25 |-> <<0, 0, 0, 0>>]
XorByte(A, k, v) ==
  LET l == (k \div 8) + 1  j == ((k % 8) \div 2) + 1
  IN  [A EXCEPT ![l][j] = @ ^^ (IF k % 2 = 0 THEN v ELSE v * 256)]
XorBytes(A, k, bs) ==      \* xor the bytes bs into the state from byte k on
  LET v(i) == IF i < k \/ i >= k + Len(bs) THEN 0 ELSE bs[i - k + 1]
      l0 == (k \div 8) + 1  l1 == ((k + Len(bs) - 1) \div 8) + 1
  IN  IF bs = <<>> THEN A
      ELSE [l \in 1..25 |-> IF l < l0 \/ l > l1 THEN A[l]
             ELSE LET o == 8 * (l - 1)
                  IN  Xor64(A[l], <<v(o) + 256 * v(o+1), v(o+2) + 256 * v(o+3),
                                    v(o+4) + 256 * v(o+5), v(o+6) + 256 * v(o+7)>>)]
LOCAL LaneBytes(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256,
                        w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>
StateBytes(A, n) ==        \* the first n bytes of the state
  SubSeq(FlattenSeq([i \in 1..((n + 7) \div 8) |-> LaneBytes(A[i])]), 1, n)
=============================================================================
