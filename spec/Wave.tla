-------------------------------- MODULE Wave --------------------------------
(* WAVE files.

   A file is "RIFF" size "WAVE", then chunks: identifier, size, content, and a
   byte of padding when the size is odd. A format chunk tells how the samples
   of the data chunk, further on, are to be read; other chunks mean nothing.
   The reader is a machine that walks through the chunks (Walk); it is bound to
   the code by recorded files. LawsSpec: whatever chunks a file is made of, the
   walk finds the parameters and the samples.                                *)
EXTENDS Bytes, TLC, Json, IOUtils

RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT  == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>
Id(f, i) == SubSeq(f, i + 1, i + 4)

PCM == 1
EXT == 65534

\* Content of a format chunk at offset i; 0: not one of PCM samples
Format(f, i) ==
  [tag |-> U16(f, i), nch |-> U16(f, i + 2), hz |-> U32(f, i + 4), rate |-> U32(f, i + 8),
   frame |-> U16(f, i + 12), bits |-> U16(f, i + 14)]
FormatOk(m) ==
  /\ m.tag \in {PCM, EXT} /\ m.nch > 0 /\ ~Zero(m.hz) /\ m.frame > 0
  /\ m.frame % m.nch = 0
  /\ m.rate = Mul32(m.hz, m.frame)

\* f: the bytes of the file from its start, as far as they matter; size: of the
\* whole file (beyond f: samples)
NoFmt == [tag |-> 0]
VARIABLES wi, f, size, at, fmt, res      \* res.st: "walk", "bad", "found"
wvars == <<wi, f, size, at, fmt, res>>

Begin == IF size < 12 \/ Id(f, 0) # RIFF \/ Id(f, 8) # WAVE THEN [st |-> "bad"] ELSE [st |-> "walk"]

Skip(i) == \* offset of the chunk that follows the one at i; beyond any file: -1
  LET n == U32(f, i + 4) IN
  IF ~Small(n) \/ Val(n) > 1000000000 THEN -1 ELSE i + 8 + Val(n) + (Val(n) % 2)

Walk ==
  /\ res.st = "walk"
  /\ UNCHANGED <<wi, f, size>>
  /\ IF at < 0 \/ at + 8 > size THEN res' = [st |-> "bad"] /\ UNCHANGED <<at, fmt>>
     ELSE IF Id(f, at) = FMT /\ fmt = NoFmt THEN
       IF ~Small(U32(f, at + 4)) \/ Val(U32(f, at + 4)) < 16 \/ at + 24 > size \/ ~FormatOk(Format(f, at + 8))
       THEN res' = [st |-> "bad"] /\ UNCHANGED <<at, fmt>>
       ELSE fmt' = Format(f, at + 8) /\ at' = Skip(at) /\ UNCHANGED res
     ELSE IF Id(f, at) = DATA THEN
       IF fmt = NoFmt THEN res' = [st |-> "bad"] /\ UNCHANGED <<at, fmt>>
       ELSE /\ res' = [st |-> "found", bits |-> fmt.bits, ss |-> fmt.frame \div fmt.nch, hz |-> fmt.hz, nch |-> fmt.nch,
                       n |-> Div32(U32(f, at + 4), fmt.frame), at |-> at + 8]
            /\ UNCHANGED <<at, fmt>>
     ELSE at' = Skip(at) /\ UNCHANGED <<fmt, res>>

(* --------------------------------- laws --------------------------------- *)

Chunk(id, c) == id \o LE32(Pair(Len(c))) \o c \o (IF Len(c) % 2 = 1 THEN <<0>> ELSE <<>>)
FormatChunk(m, extra) ==
  Chunk(FMT, LE16(m.tag) \o LE16(m.nch) \o LE32(m.hz) \o LE32(m.rate) \o LE16(m.frame) \o LE16(m.bits) \o extra)
Formats == {[tag |-> x, nch |-> nch, hz |-> Pair(hz), rate |-> Mul32(Pair(hz), nch * ss), frame |-> nch * ss, bits |-> bits] :
              x \in {PCM, EXT}, nch \in {1, 2}, hz \in {8000, 96000}, ss \in {2, 3, 4}, bits \in {16, 24}}
Junk == {<<>>, Chunk(<<74, 85, 78, 75>>, <<>>), Chunk(<<76, 73, 83, 84>>, <<100, 97, 116, 97, 1>>),
         Chunk(<<98, 101, 120, 116>>, <<102, 109, 116, 32, 16, 0, 0, 0, 1, 0>>)}
Extras == {<<>>, <<0, 0>>, <<9>>, <<22, 0, 24, 0, 3, 0, 0, 0, 1, 0, 0, 0, 0, 0, 16, 0, 128, 0, 0, 170, 0, 56, 155, 113>>}
Samples(m, n) == [i \in 1..(n * m.frame) |-> i % 256]

LawsInit == /\ wi = 0 /\ at = 12 /\ fmt = NoFmt
            /\ \E m \in Formats : \E a \in Junk : \E b \in Junk : \E e \in Extras : \E n \in {0, 1, 3} : \E t \in Junk :
                 LET body == WAVE \o a \o FormatChunk(m, e) \o b IN
                 /\ f = RIFF \o LE32(Pair(Len(body) + 8)) \o body \o DATA \o LE32(Pair(n * m.frame)) \o Samples(m, n) \o t
                 /\ size = Len(f)
            /\ res = Begin
LawsSpec == LawsInit /\ [][Walk]_wvars
\* the samples found are the ones put there
Found == res.st = "found" =>
  /\ Val(res.n) \in {0, 1, 3} /\ res.at + Val(res.n) * res.ss * res.nch <= size
  /\ \A i \in 1..(Val(res.n) * res.ss * res.nch) : f[res.at + i] = i % 256
NotBad == res.st # "bad"

(* --------------------------------- files -------------------------------- *)
(* r: read     [bytes, size, ret, bits, ss, hz, nch, n, at, reads]
               reads: frames asked, frames given, their bytes
   w: written  [bits, ss, hz, nch, n, pcm: buffer, writes: offset and count in
               frames, bytes: the file]                                       *)
Files == ndJsonDeserialize(IOEnv.FILES)
F == Files[wi]
FilesInit == /\ wi \in {i \in 1..Len(Files) : Files[i].k = "r"} /\ f = F.bytes /\ size = F.size /\ at = 12 /\ fmt = NoFmt /\ res = Begin
\* once found, the samples are read in turn
Reading ==
  /\ res.st = "found" /\ res.ret = "ok"
  /\ UNCHANGED <<wi, f, size, fmt>>
  /\ LET k == res.k
         m == res.ss * res.nch IN
     /\ k <= Len(F.reads)
     /\ LET r == F.reads[k]
            there == (size - at) \div m
            n == IF r.ask < there THEN r.ask ELSE there IN
        /\ at' = at + n * m
        \* a short read leaves the position undefined
        /\ res' = [res EXCEPT !.k = IF n < r.ask THEN Len(F.reads) + 1 ELSE k + 1,
                              !.ret = IF r.got = n /\ r.data = SubSeq(f, at + 1, at + n * m) THEN "ok" ELSE "wrong samples"]
Start == /\ res.st = "found" /\ "ret" \notin DOMAIN res
         /\ res' = [x \in DOMAIN res \cup {"ret", "k"} |-> CASE x = "k" -> 1
                     [] x = "ret" -> IF /\ F.ret = 0 /\ F.bits = res.bits /\ F.ss = res.ss /\ F.hz = res.hz /\ F.nch = res.nch
                                        /\ F.n = res.n /\ F.at = res.at THEN "ok" ELSE "wrong header"
                     [] OTHER -> res[x]]
         /\ at' = res.at
         /\ UNCHANGED <<wi, f, size, fmt>>
FilesNext == Walk \/ Start \/ (res.st = "found" /\ "ret" \in DOMAIN res /\ Reading)
FilesSpec == FilesInit /\ [][FilesNext]_wvars
FilesOk == CASE res.st = "bad" -> F.ret = -1
             [] res.st = "found" -> ("ret" \in DOMAIN res) => res.ret = "ok"
             [] OTHER -> TRUE

WHeader(p) ==
  LET n == Mul32(p.n, p.nch * p.ss) IN
  RIFF \o LE32(Add32(n, <<0, 36>>)) \o WAVE
  \o FMT \o LE32(<<0, 16>>) \o LE16(PCM) \o LE16(p.nch) \o LE32(p.hz) \o LE32(Mul32(p.hz, p.nch * p.ss)) \o LE16(p.nch * p.ss) \o LE16(p.bits)
  \o DATA \o LE32(n)
WrittenInit == /\ wi \in {i \in 1..Len(Files) : Files[i].k = "w"} /\ f = WHeader(F) /\ size = 44 /\ at = 1 /\ fmt = NoFmt /\ res = [st |-> ""]
Writing == /\ at <= Len(F.writes) /\ at' = at + 1
           /\ LET w == F.writes[at]
                  m == F.ss * F.nch IN
              f' = f \o SubSeq(F.pcm, w.off * m + 1, (w.off + w.count) * m)
           /\ UNCHANGED <<wi, size, fmt, res>>
WrittenSpec == WrittenInit /\ [][Writing]_wvars
WrittenOk == /\ SubSeq(F.bytes, 1, Len(f)) = f
             /\ (at = Len(F.writes) + 1) => Len(F.bytes) = Len(f)
=============================================================================
