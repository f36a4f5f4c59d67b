-------------------------------- MODULE Nets --------------------------------
(***************************************************************************)
(* IPv4 blocks are [o: four octets, bits].  A bare address is a /32 block. *)
(***************************************************************************)
EXTENDS Times

Pow2(n) == LET p == <<1, 2, 4, 8, 16, 32, 64, 128, 256>> IN p[n + 1]

(* the first n bits of two addresses agree *)
SameBits(a, b, n) ==
    \A k \in 1..4 :
        LET here == MinN(8, n - 8 * (k - 1))
        IN here <= 0 \/ (a[k] \div Pow2(8 - here)) = (b[k] \div Pow2(8 - here))

Overlap(x, y) == SameBits(x.o, y.o, MinN(x.bits, y.bits))

(* one to three digits at i: end position; greedy, at most three *)
OctetEnd(s, i) ==
    IF ~IsDigit(At(s, i)) THEN 0
    ELSE IF ~IsDigit(At(s, i + 1)) THEN i + 1
    ELSE IF ~IsDigit(At(s, i + 2)) THEN i + 2 ELSE i + 3

(* a well-formed number up to max without superfluous zeros, in s[i..j-1] *)
SmallNum(s, i, j, max) ==
    /\ j - i <= 3
    /\ (j - i > 1 => At(s, i) # 48)
    /\ NatAt(s, i, j - i) <= max

(* Scan d.d.d.d or d.d.d.d/dd at i: [e: end or 0; ok: names a block; net] *)
NoNet == [e |-> 0, ok |-> FALSE, net |-> [o |-> <<0, 0, 0, 0>>, bits |-> 0]]
ScanNet(s, i) ==
    LET a == OctetEnd(s, i)
        b == IF a # 0 /\ At(s, a) = DOT THEN OctetEnd(s, a + 1) ELSE 0
        c == IF b # 0 /\ At(s, b) = DOT THEN OctetEnd(s, b + 1) ELSE 0
        d == IF c # 0 /\ At(s, c) = DOT THEN OctetEnd(s, c + 1) ELSE 0
        blk == d # 0 /\ At(s, d) = SLASH /\ IsDigit(At(s, d + 1))
        e == IF ~blk THEN d ELSE IF IsDigit(At(s, d + 2)) THEN d + 3 ELSE d + 2
        ok == /\ SmallNum(s, i, a, 255) /\ SmallNum(s, a + 1, b, 255)
              /\ SmallNum(s, b + 1, c, 255) /\ SmallNum(s, c + 1, d, 255)
              /\ (blk => SmallNum(s, d + 1, e, 32))
    IN IF d = 0 THEN NoNet
       ELSE [e |-> e, ok |-> ok,
             net |-> IF ~ok THEN NoNet.net
                     ELSE [o |-> <<NatAt(s, i, a - i), NatAt(s, a + 1, b - a - 1),
                                   NatAt(s, b + 1, c - b - 1), NatAt(s, c + 1, d - c - 1)>>,
                           bits |-> IF blk THEN NatAt(s, d + 1, e - d - 1) ELSE 32]]

(* Runs of digits, dots and slashes in a text: where addresses can be *)
NetChar(c) == IsDigit(c) \/ c = DOT \/ c = SLASH
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF NetChar(At(s, i)) THEN RunEnd(s, i + 1) ELSE i
RECURSIVE RunStart(_, _, _)
RunStart(s, i, e) == IF i < e /\ ~IsDigit(At(s, i)) THEN RunStart(s, i + 1, e) ELSE i
RECURSIVE RunTrim(_, _, _)
RunTrim(s, i, e) == IF e > i /\ ~IsDigit(At(s, e - 1)) THEN RunTrim(s, i, e - 1) ELSE e

Dots(s, i, e) == {k \in i..(e - 1) : s[k] = DOT}

(* does the run s[i..e-1] contain an address or block meeting net? *)
RunMeets(s, i0, e0, net) ==
    LET i == RunStart(s, i0, e0)
        e == RunTrim(s, i, e0)
        n == ScanNet(s, i)
    IN IF \A k \in Dots(s, i, e) : \A l \in Dots(s, i, e) : \A m \in Dots(s, i, e) : k = l \/ l = m \/ k = m
       THEN F                       \* fewer than three dots: nothing here
       ELSE IF n.e # e THEN U       \* more than one plain address: not specified
       ELSE IF n.ok THEN Ans(Overlap(n.net, net)) ELSE F

RECURSIVE NetSearch(_, _, _)
NetSearch(s, i, net) ==
    IF i > Len(s) THEN F
    ELSE IF NetChar(s[i])
         THEN OrA(RunMeets(s, i, RunEnd(s, i), net), NetSearch(s, RunEnd(s, i), net))
         ELSE NetSearch(s, i + 1, net)

NetIn(s, net) == NetSearch(s, 1, net)
=============================================================================
