-------------------------------- MODULE Hash --------------------------------
(* MD5 (RFC 1321), SHA-1, SHA-256, SHA-384 and SHA-512 (FIPS 180-4) as       *)
(* functions of the whole message, a sequence of bytes.  java/Hash.java      *)
(* overrides Md5 .. Sha512 for speed; HashSelf compares the two.             *)
EXTENDS Words

K256 == <<
    <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
    <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
    <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
    <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
    <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
    <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
    <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
    <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
    <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
    <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
    <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
    <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
    <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
    <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
    <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
    <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>> >>

H256 == <<
    <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
    <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>> >>

K512 == <<
    <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>, <<59829,56229,33161,56252>>,
    <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>, <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>,
    <<55303,43672,41731,578>>, <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
    <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>, <<49563,61812,53097,9876>>,
    <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>, <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>,
    <<11753,11375,22827,629>>, <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
    <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>, <<48985,32711,48879,3812>>,
    <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>, <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>,
    <<10167,2693,18130,12284>>, <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
    <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>, <<37490,11397,5250,13627>>,
    <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>, <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>,
    <<53650,59417,55023,21016>>, <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
    <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>, <<13488,48309,57755,18600>>,
    <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>, <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>,
    <<29839,33518,24047,45820>>, <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
    <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>, <<50801,30962,58226,21291>>,
    <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>, <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>,
    <<1776,26538,29207,28602>>, <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
    <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>, <<17181,26564,39952,3404>>,
    <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>, <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>> >>

H512 == <<
    <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
    <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>> >>

H384 == <<
    <<52155,40285,49413,40664>>, <<25242,10538,13948,54535>>, <<37209,346,12400,56599>>, <<5423,60632,63246,22841>>,
    <<26419,9831,65472,2865>>, <<36532,19079,26712,5393>>, <<56076,11789,25849,36775>>, <<18357,18461,48890,20388>> >>

KMd5 == <<
    <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>,
    <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>,
    <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>,
    <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>,
    <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>,
    <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
    <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>,
    <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>,
    <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>,
    <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>,
    <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>,
    <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
    <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>,
    <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>,
    <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>,
    <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>> >>

HMd5 == <<
    <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>> >>

HSha1 == <<
    <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>,
    <<50130,57840>> >>

KSha1 == <<
    <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<51810,49622>> >>

SMd5 == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>

\* message, one bit, zeros, length in bits (big- or little-endian)
PadLen(n, blk, lf) == (2 * blk - 1 - lf - (n % blk)) % blk
Bits(n, lf) == NatBE(n \div 32, lf - 1) \o <<(n % 32) * 8>>
Padded(m, blk, lf, le) ==
  m \o <<128>> \o Zeros(PadLen(Len(m), blk, lf)) \o (IF le THEN RevSeq(Bits(Len(m), lf)) ELSE Bits(Len(m), lf))

Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(XorW(AndW(x, y), AndW(x, z)), AndW(y, z))
Par(x, y, z) == XorW(XorW(x, y), z)
Xor3(x, y, z) == XorW(XorW(x, y), z)
Add3(x, y, z) == AddW(AddW(x, y), z)
Words(s, wl) == TLCEval([i \in 1..(Len(s) \div wl) |-> WordBE(Block(s, wl, i))])

(* ---- SHA-2 ---- *)
S2(wl, x, r) ==   \* r: two rotations and a third one (rotation or shift)
  IF r[4] = 1 THEN Xor3(RotR(x, r[1]), RotR(x, r[2]), RotR(x, r[3])) ELSE Xor3(RotR(x, r[1]), RotR(x, r[2]), ShrW(x, r[3]))
R0(wl) == IF wl = 4 THEN <<7, 18, 3, 0>> ELSE <<1, 8, 7, 0>>
R1(wl) == IF wl = 4 THEN <<17, 19, 10, 0>> ELSE <<19, 61, 6, 0>>
E0(wl) == IF wl = 4 THEN <<2, 13, 22, 1>> ELSE <<28, 34, 39, 1>>
E1(wl) == IF wl = 4 THEN <<6, 11, 25, 1>> ELSE <<14, 18, 41, 1>>
RECURSIVE Sched2(_, _, _)
Sched2(w, n, wl) ==
  IF Len(w) = n THEN w
  ELSE LET t == Len(w) + 1 IN
       Sched2(Append(w, AddW(AddW(S2(wl, w[t - 2], R1(wl)), w[t - 7]), AddW(S2(wl, w[t - 15], R0(wl)), w[t - 16]))), n, wl)
RECURSIVE Rounds2(_, _, _, _, _)
Rounds2(v, w, k, t, wl) ==
  IF t > Len(w) THEN v
  ELSE LET t1 == AddW(AddW(v[8], S2(wl, v[5], E1(wl))), Add3(Ch(v[5], v[6], v[7]), k[t], w[t]))
           t2 == AddW(S2(wl, v[1], E0(wl)), Maj(v[1], v[2], v[3])) IN
       Rounds2(TLCEval(<<AddW(t1, t2), v[1], v[2], v[3], AddW(v[4], t1), v[5], v[6], v[7]>>), w, k, t + 1, wl)
RECURSIVE Blocks2(_, _, _, _, _)
Blocks2(h, m, i, k, wl) ==
  IF i * 16 * wl > Len(m) THEN h
  ELSE LET w == Sched2(Words(Block(m, 16 * wl, i), wl), Len(k), wl)
           v == Rounds2(h, w, k, 1, wl) IN
       Blocks2(TLCEval([j \in 1..8 |-> AddW(h[j], v[j])]), m, i + 1, k, wl)
OutBE(h) == Concat([i \in 1..Len(h) |-> BytesBE(h[i])])
OutLE(h) == Concat([i \in 1..Len(h) |-> BytesLE(h[i])])
Sha256(m) == OutBE(Blocks2(H256, Padded(m, 64, 8, FALSE), 1, K256, 4))
Sha512(m) == OutBE(Blocks2(H512, Padded(m, 128, 16, FALSE), 1, K512, 8))
Sha384(m) == SubSeq(OutBE(Blocks2(H384, Padded(m, 128, 16, FALSE), 1, K512, 8)), 1, 48)

(* ---- SHA-1 ---- *)
RECURSIVE Sched1(_)
Sched1(w) ==
  IF Len(w) = 80 THEN w
  ELSE LET t == Len(w) + 1 IN
       Sched1(Append(w, RotL(XorW(XorW(w[t - 3], w[t - 8]), XorW(w[t - 14], w[t - 16])), 1)))
RECURSIVE Rounds1(_, _, _)
Rounds1(v, w, t) ==
  IF t > 80 THEN v
  ELSE LET q == (t - 1) \div 20
           f == CASE q = 0 -> Ch(v[2], v[3], v[4])
                  [] q = 2 -> Maj(v[2], v[3], v[4])
                  [] OTHER -> Par(v[2], v[3], v[4]) IN
       Rounds1(TLCEval(<<AddW(AddW(RotL(v[1], 5), f), Add3(v[5], KSha1[q + 1], w[t])), v[1], RotL(v[2], 30), v[3], v[4]>>), w, t + 1)
RECURSIVE Blocks1(_, _, _)
Blocks1(h, m, i) ==
  IF i * 64 > Len(m) THEN h
  ELSE LET v == Rounds1(h, Sched1(Words(Block(m, 64, i), 4)), 1) IN
       Blocks1(TLCEval([j \in 1..5 |-> AddW(h[j], v[j])]), m, i + 1)
Sha1(m) == OutBE(Blocks1(HSha1, Padded(m, 64, 8, FALSE), 1))

(* ---- MD5 ---- *)
RECURSIVE RoundsM(_, _, _)
RoundsM(v, w, i) ==
  IF i > 63 THEN v
  ELSE LET q == i \div 16
           f == CASE q = 0 -> Ch(v[2], v[3], v[4])
                  [] q = 1 -> Ch(v[4], v[2], v[3])
                  [] q = 2 -> Par(v[2], v[3], v[4])
                  [] OTHER -> XorW(v[3], OrW(v[2], NotW(v[4])))
           g == CASE q = 0 -> i
                  [] q = 1 -> (5 * i + 1) % 16
                  [] q = 2 -> (3 * i + 5) % 16
                  [] OTHER -> (7 * i) % 16
           x == AddW(AddW(v[1], f), AddW(KMd5[i + 1], w[g + 1])) IN
       RoundsM(TLCEval(<<v[4], AddW(v[2], RotL(x, SMd5[q + 1][(i % 4) + 1])), v[2], v[3]>>), w, i + 1)
RECURSIVE BlocksM(_, _, _)
BlocksM(h, m, i) ==
  IF i * 64 > Len(m) THEN h
  ELSE LET b == Block(m, 64, i)
           v == RoundsM(h, TLCEval([j \in 1..16 |-> WordLE(Block(b, 4, j))]), 0) IN
       BlocksM(TLCEval([j \in 1..4 |-> AddW(h[j], v[j])]), m, i + 1)
Md5(m) == OutLE(BlocksM(HMd5, Padded(m, 64, 8, TRUE), 1))

\* the digest of hi * 2^20 + lo zero bytes
HashZeros(alg, hi, lo) ==
  LET m == Zeros(hi * 1048576 + lo) IN
  CASE alg = "md5" -> Md5(m) [] alg = "sha1" -> Sha1(m) [] alg = "sha256" -> Sha256(m)
    [] alg = "sha384" -> Sha384(m) [] alg = "sha512" -> Sha512(m)
=============================================================================
