----------------------------- MODULE Container -----------------------------
(* The file container of the tools: a header, then blocks of frames.

   header   id 1C CC | header size | rate / 100 | bitrate / 100 | channels |
            duration / 10 us | epmode 0 | samples (32 bits) [| high resolution]
   block    size (16 bits), content

   First part: the writer and the reader as functions of the bytes.
   Second part (LawsSpec): a file being written, then read: what was written
   comes back, at each step, and a cut anywhere gives the blocks before it.
   Third part (FilesSpec): files written and read by the implementation.     *)
EXTENDS Bytes, TLC, Json, IOUtils

Min2(a, b) == IF a < b THEN a ELSE b

MaxFrame == 625

\* p: [hz, rate, nch, us, ns, hr]; ns a pair
Header(p) ==
  <<28, 204>> \o LE16(IF p.hr = 1 THEN 20 ELSE 18) \o LE16(p.hz \div 100) \o LE16(p.rate \div 100)
  \o LE16(p.nch) \o LE16(p.us \div 10) \o LE16(0) \o LE32(p.ns)
  \o (IF p.hr = 1 THEN LE16(1) ELSE <<>>)
Block(b) == LE16(Len(b)) \o b

Bad == [ok |-> 0]
ReadHeader(f) ==
  IF Len(f) < 18 \/ U16(f, 0) # 52252 \/ U16(f, 2) < 18 THEN Bad
  ELSE LET size == U16(f, 2) IN
       IF (size >= 20 /\ Len(f) < 20) \/ U16(f, 12) # 0 THEN Bad
       ELSE [ok |-> 1, hz |-> U16(f, 4) * 100, nch |-> U16(f, 8), us |-> U16(f, 10) * 10,
             ns |-> U32(f, 14), hr |-> IF size >= 20 /\ U16(f, 18) # 0 THEN 1 ELSE 0, at |-> size]

\* The block at an offset: its content, or none
None == [ok |-> 0]
ReadBlock(f, at, nch) ==
  IF at + 2 > Len(f) THEN None
  ELSE LET n == U16(f, at) IN
       IF n = 0 \/ n > nch * MaxFrame \/ at + 2 + n > Len(f) THEN None
       ELSE [ok |-> 1, data |-> SubSeq(f, at + 3, at + 2 + n), at |-> at + 2 + n]

(* --------------------------------- laws --------------------------------- *)

VARIABLES file, wrote, mode, at, got, par
lvars == <<file, wrote, mode, at, got, par>>
Params == {[hz |-> hz, rate |-> rate, nch |-> nch, us |-> us, ns |-> ns, hr |-> hr] :
             hz \in {8000, 96000}, rate \in {0, 123456, 2560000}, nch \in {1, 2}, us \in {2500, 10000},
             ns \in {<<0, 0>>, <<1, 65535>>, <<65535, 65535>>}, hr \in {0, 1}}
Contents == {<<0>>, <<0, 0>>, <<1, 0, 28>>}

LawsInit == /\ par \in Params /\ file = Header(par) /\ wrote = <<>> /\ mode = "write" /\ at = 0 /\ got = <<>>
LawsNext ==
  \/ /\ mode = "write" /\ Len(wrote) < 3
     /\ \E c \in Contents : file' = file \o Block(c) /\ wrote' = Append(wrote, c)
     /\ UNCHANGED <<mode, at, got, par>>
  \* the file is cut, or not, and read
  \/ /\ mode = "write" /\ mode' = "read"
     /\ \E c \in 0..Len(file) : file' = SubSeq(file, 1, c)
     /\ at' = (IF ReadHeader(file').ok = 1 THEN ReadHeader(file').at ELSE -1)
     /\ UNCHANGED <<wrote, got, par>>
  \/ /\ mode = "read" /\ at >= 0 /\ ReadBlock(file, at, par.nch).ok = 1
     /\ LET b == ReadBlock(file, at, par.nch) IN got' = Append(got, b.data) /\ at' = b.at
     /\ UNCHANGED <<file, wrote, mode, par>>

HeaderBack == LET h == ReadHeader(file) IN
  (mode = "write" \/ Len(file) >= 20) =>
    /\ h.ok = 1 /\ h.hz = par.hz /\ h.nch = par.nch /\ h.us = par.us /\ h.ns = par.ns /\ h.hr = par.hr
BlocksBack == Len(got) <= Len(wrote) /\ \A k \in 1..Len(got) : got[k] = wrote[k]
RECURSIVE Size(_)
Size(k) == IF k = 0 THEN Len(Header(par)) ELSE Size(k - 1) + 2 + Len(wrote[k])
\* when nothing more is read, everything that was whole has been
AllBack == (mode = "read" /\ at >= 0 /\ ReadBlock(file, at, par.nch).ok = 0) =>
             /\ Size(Len(got)) <= Len(file)
             /\ Len(got) < Len(wrote) => Size(Len(got) + 1) > Len(file)

(* --------------------------------- files -------------------------------- *)
(* w: written   [p, blocks, bytes]
   r: read      [bytes, hdr: what the header reader returned, blocks: what each
                 call of the block reader returned, ok and data; over: 1 when
                 the reader touched its buffer after the size it is owed]     *)
Files == ndJsonDeserialize(IOEnv.FILES)
VARIABLES fi, j, pos, good      \* file, step, offset
fvars == <<fi, j, pos, good>>
F == Files[fi]

FilesInit == /\ fi \in 1..Len(Files) /\ j = 0 /\ good = TRUE /\ pos = 0
             /\ file = <<>> /\ wrote = <<>> /\ mode = "" /\ at = 0 /\ got = <<>> /\ par = <<>>

SubIs(f, a, s) == a + Len(s) <= Len(f) /\ SubSeq(f, a + 1, a + Len(s)) = s

Written ==
  /\ F.k = "w" /\ good
  /\ IF j = 0 THEN LET h == Header(F.p) IN good' = SubIs(F.bytes, 0, h) /\ pos' = Len(h) /\ j' = 1
     ELSE IF j <= Len(F.blocks) THEN LET b == Block(F.blocks[j]) IN good' = SubIs(F.bytes, pos, b) /\ pos' = pos + Len(b) /\ j' = j + 1
     ELSE j = Len(F.blocks) + 1 /\ j' = j + 1 /\ good' = (pos = Len(F.bytes)) /\ pos' = pos

HeaderIs(h, r) == IF h.ok = 0 THEN r.ret = -1
                  ELSE r.ret = 0 /\ r.hz = h.hz /\ r.nch = h.nch /\ r.us = h.us /\ r.ns = h.ns /\ r.hr = h.hr
Read ==
  /\ F.k = "r" /\ good
  /\ IF j = 0 THEN LET h == ReadHeader(F.bytes) IN
                   /\ good' = HeaderIs(h, F.hdr) /\ pos' = (IF h.ok = 1 THEN h.at ELSE -1) /\ j' = 1
     ELSE /\ pos >= 0 /\ j <= Len(F.blocks)
          /\ LET b == ReadBlock(F.bytes, pos, ReadHeader(F.bytes).nch)
                 r == F.blocks[j] IN
             /\ good' = (/\ r.over = 0
                         /\ IF b.ok = 0 THEN r.ret = -1 ELSE r.ret = Len(b.data) /\ r.data = b.data)
             /\ pos' = (IF b.ok = 1 THEN b.at ELSE -1) /\ j' = j + 1
CLawsSpec == LawsInit /\ fi = 0 /\ j = 0 /\ pos = 0 /\ good = TRUE /\ [][LawsNext /\ UNCHANGED fvars]_<<fvars, lvars>>
FilesNext == (Written \/ Read) /\ UNCHANGED <<fi, lvars>>
FilesSpec == FilesInit /\ [][FilesNext]_<<fvars, lvars>>
FilesOk == good
=============================================================================
