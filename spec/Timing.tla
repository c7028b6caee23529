------------------------------- MODULE Timing -------------------------------
(* How long packets take on a link.  One direction of a link is a server that
   works off one packet at a time; a packet of n bytes keeps it busy for n byte
   times and arrives the propagation delay after its last byte has left.      *)
EXTENDS Integers
Lower(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a < b THEN a ELSE b     \* 0: not limited
(* byte time in picoseconds of one lane: 8 bits over the rate after 8b/10b or 128b/130b coding *)
ByteTime(sp) == CASE sp = 1 -> <<4000, 1>> [] sp = 2 -> <<2000, 1>> [] sp = 3 -> <<8125, 8>> [] sp = 4 -> <<8125, 16>> [] OTHER -> <<8125, 32>>
Busy(bytes, sp, w) == IF sp = 0 \/ w = 0 THEN 0 ELSE (bytes * ByteTime(sp)[1]) \div (ByteTime(sp)[2] * w)
(* sequence number, header, payload and link CRC and framing *)
WireBytes(hdrdw, data) == 4 * hdrdw + data + 8
DllpBytes == 8
=============================================================================
