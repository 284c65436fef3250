------------------------------ MODULE SymLaws ------------------------------
(* Laws of the definitions that the conformance checks use as the oracle.    *)
EXTENDS Sym
CONSTANT K
VARIABLE n, go
lvars == <<svars, n, go>>
LInit0 == SymInit /\ n \in 1..K /\ go = 0
LSpec == LInit0 /\ [][go = 0 /\ go' = 1 /\ UNCHANGED <<svars, n>>]_lvars
S(len, a) == TLCEval([i \in 1..len |-> (n * (a + 5 * i) + 7 * i * i * (n % 11) + a + (n \div 7)) % 256])
Aes == go = 1 => \A kl \in {16, 24, 32} : AesDec(S(kl, 3), AesEnc(S(kl, 3), S(16, 9))) = S(16, 9)
Des == go = 1 => /\ DesDec(S(8, 3), DesEnc(S(8, 3), S(8, 9))) = S(8, 9)
                 /\ TdesDec(S(24, 3), TdesEnc(S(24, 3), S(8, 9))) = S(8, 9)
                 \* equal keys make triple DES single DES
                 /\ TdesEnc(S(8, 3) \o S(8, 3) \o S(8, 3), S(8, 1)) = DesEnc(S(8, 3), S(8, 1))
KeyWrap == go = 1 => LET m == S(16 + 8 * (n % 6), 5) w == Wrap(S(16, 1), m)
                         j == (n % Len(w)) + 1 IN
           /\ Unwrap(S(16, 1), w) = <<Fill(8, 166), m>>
           /\ Unwrap(S(16, 1), [w EXCEPT ![j] = @ ^^ 1])[1] # Fill(8, 166)
Crc == go = 1 => \A v \in {"ccitt", "ibm", "dnp", "eth"} : \A c \in 0..(n % 9) :
         CrcRun(v, CrcRun(v, CrcStart(v), S(c, 2)), S(n % 13, 4)) = CrcRun(v, CrcStart(v), S(c, 2) \o S(n % 13, 4))
\* the published check values over "123456789"
Digits == [i \in 1..9 |-> 48 + i]
CrcCheck == /\ CrcRun("ccitt", <<65535>>, Digits) = <<28561>>          \* CRC-16/X-25 before the complement: 6F91
            /\ CrcRun("ibm", <<65535>>, Digits) = <<19255>>            \* CRC-16/MODBUS 4B37
            /\ CrcRun("dnp", <<0>>, Digits) = <<5501>>                 \* CRC-16/DNP before the complement: 157D
            /\ CrcRun("eth", <<65535, 65535>>, Digits) = <<13323, 50905>>   \* CRC-32 CBF43926 complemented
B64 == go = 1 => \A k \in 0..9 : LET m == S(k, n) t == B64Enc(m) IN
         B64Valid(t) /\ B64Dec(t) = m /\ Len(t) = 4 * ((k + 2) \div 3)
Affine == go = 1 => LET a == 2 * (n % 128) + 1 m == [i \in 1..256 |-> i - 1] IN
         AffDec(<<a>>, <<n % 256>>, AffEnc(<<a>>, <<n % 256>>, m)) = m
\* 2 x 2: usable iff the determinant is odd, and then the adjugate times its inverse is the inverse
Hill == go = 1 => LET k == S(4, n) det == (k[1] * k[4] + 256 * 256 - k[2] * k[3]) % 256 IN
         /\ HillUsable(k, 2) <=> det % 2 = 1
         /\ det % 2 = 1 => LET q == InvMod256(det) IN
              HillInverse(k, <<(k[4] * q) % 256, ((256 - k[2]) * q) % 256, ((256 - k[3]) * q) % 256, (k[1] * q) % 256>>, 2)
Gcm == go = 1 => LET k == S(16, 1) iv == S((n % 20) + 1, 2) m == S(n % 50, 3) a == S(n % 37, 4)
                     ct == Gctr("aes", k, Inc32(GcmJ0("aes", k, iv)), m)[2] IN
       /\ Gctr("aes", k, Inc32(GcmJ0("aes", k, iv)), ct)[2] = m
       \* zero bytes at the start of the additional data may be counted or spelled out
       /\ GcmTag("aes", k, iv, 0, a, 0, ct) # GcmTag("aes", k, iv, 0, Append(a, 0), 0, ct)
\* the stream of a generator is one stream
Streams1 == go = 1 => LET c == n % 23 IN
       /\ PrngRun(S(32, 1), 0, c) \o PrngRun(S(32, 1), c, 30) = PrngRun(S(32, 1), 0, c + 30)
       /\ LET st == Arc4Key(S(5, n)) a == Arc4Run(st, c) IN a[2] \o Arc4Run(a[1], 9)[2] = Arc4Run(st, c + 9)[2]
       /\ TrivRun(S(10, 1), S(10, 2), 0, 4 * c) \o TrivRun(S(10, 1), S(10, 2), 4 * c, 7) = TrivRun(S(10, 1), S(10, 2), 0, 4 * c + 7)
\* seeds that would leave a component in the short cycle are replaced
Lfsr == go = 1 => LET z == LfsrInit(IF n % 2 = 0 THEN Zeros(n % 17) ELSE S(n % 40, 1)) IN
       \A i \in 1..4 : z[i][1] # 0 \/ z[i][2] > <<1, 7, 15, 127>>[i]
\* HMAC and CMAC: published values (RFC 2202 case 2, RFC 4493 examples 1 and 2)
Jefe == <<74, 101, 102, 101>>
What == <<119,104,97,116,32,100,111,32,121,97,32,119,97,110,116,32,102,111,114,32,110,111,116,104,105,110,103,63>>
MacCheck ==
  /\ Hmac("md5", Jefe, What) = <<117,12,120,62,106,176,181,3,234,168,110,49,10,93,183,56>>
  /\ LET k == <<43,126,21,22,40,174,210,166,171,247,21,136,9,207,79,60>> IN
     /\ Cmac("aes", k, <<>>) = <<187,29,105,41,233,89,55,40,127,163,125,18,155,117,103,70>>
     /\ Cmac("aes", k, <<107,193,190,226,46,64,159,150,233,61,126,17,115,147,23,42>>)
          = <<7,10,22,180,107,77,65,68,247,155,221,157,208,74,40,124>>
=============================================================================
