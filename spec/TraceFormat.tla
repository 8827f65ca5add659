----------------------------- MODULE TraceFormat -----------------------------
(* Files left by the library, read by the documented format.                  *)
EXTENDS Format, XXH64, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i
Field(e, f) == f \in DOMAIN e

\* numbers of the files are big endian, words of the hash function little endian
Rev8(s) == <<s[8], s[7], s[6], s[5], s[4], s[3], s[2], s[1]>>
Salted(e, d) == Rev8(Hash64(d, Rev8(e.salt)))
\* the standard hash function is defined by the specification (hm 0); others are given by the driver
HashesOK(e) == e.hm = 0 => /\ e.pepper = Salted(e, Rev8(e.salt))
                           /\ \A q \in DOMAIN e.kv : e.kv[q].h = Salted(e, e.kv[q].k)

DataFileOK(e) ==
  LET rs == Records(e.dat, e.ks)
      ds == {j \in 1..Len(rs) : rs[j].k = "d"}
      ss == {j \in 1..Len(rs) : rs[j].k = "s"} IN
  /\ Len(e.dat) >= DatHeaderSize
  /\ Bytes(e.dat, 0, DatHeaderSize) = DatHeader(e.uid, e.app, e.ks)
  /\ \A j \in 1..Len(rs) : rs[j].k # "bad"
  /\ \A j \in ss : rs[j].z >= rs[j].b.len /\ EntriesSmall(rs[j].b) /\ Ordered(rs[j].b) /\ Len(rs[j].b.e) > 0
  /\ Cardinality(ds) = Len(e.kv)                      \* one data record for each key
  /\ {rs[j].key : j \in ds} = {e.kv[q].k : q \in 1..Len(e.kv)}

HashOf(e, key) == LET q == CHOOSE x \in 1..Len(e.kv) : e.kv[x].k = key IN Truncated(e.kv[q].h)

KeyFileOK(e) ==
  LET bks == Buckets(e.key, e.bs)
      rs == Records(e.dat, e.ks)
      dat == {[off |-> rs[j].off, size |-> rs[j].size, hash |-> HashOf(e, rs[j].key)] : j \in {x \in 1..Len(rs) : rs[x].k = "d"}} IN
  /\ Len(e.key) >= 2 * e.bs /\ Len(e.key) % e.bs = 0
  /\ Bytes(e.key, 0, e.bs) = KeyHeader(e.uid, e.app, e.ks, e.salt, e.pepper, e.bs, e.lf)
  /\ \A j \in 1..Len(bks) : bks[j].ok /\ EntriesSmall(bks[j]) /\ Ordered(bks[j]) /\ Len(bks[j].e) <= Capacity(e.bs)
  \* the entries are exactly those of the data records
  /\ LET all == [j \in 1..Len(bks) |-> Chain(e.dat, bks[j], 1000)] IN
     /\ \A j \in 1..Len(bks) : \A q \in 1..Len(all[j]) :
          /\ [off |-> all[j][q].off, size |-> all[j][q].size, hash |-> all[j][q].hash] \in dat
          /\ Home(all[j][q].hash, Len(bks)) = j - 1
     /\ LET N[j \in 0..Len(bks)] == IF j = 0 THEN 0 ELSE N[j - 1] + Len(all[j]) IN N[Len(bks)] = Cardinality(dat)
  \* and every value is found
  /\ \A q \in 1..Len(e.kv) : Found(e.dat, bks, e.ks, Truncated(e.kv[q].h), e.kv[q].k) = {e.kv[q].v}

\* the log as it is when the key file is about to be changed: kpre is the key file, dpre the size of the data file before
LogOK(e) ==
  LET rs == LogRecords(e.log)
      bks == Buckets(e.kpre, e.bs) IN
  /\ Len(e.log) >= LogHeaderSize
  /\ Bytes(e.log, 0, LogHeaderSize) = LogHeader(e.uid, e.app, e.ks, e.salt, e.pepper, e.bs, Len(e.kpre), e.dpre)
  /\ \A j \in 1..Len(rs) :
       /\ rs[j].ok
       /\ rs[j].n < Len(bks)
       /\ rs[j].b.e = bks[rs[j].n + 1].e /\ rs[j].b.spill = bks[rs[j].n + 1].spill
       /\ \A q \in 1..(j - 1) : rs[q].n # rs[j].n
  /\ e.kpre = << >> => rs = << >>

Accept(e) ==
  CASE e.o = "img" -> HashesOK(e) /\ DataFileOK(e) /\ KeyFileOK(e) /\ e.nolog
    [] e.o = "log" -> LogOK(e)
    [] e.o = "hash" -> e.r = Rev8(Hash64(e.d, Rev8(e.seed)))
    [] e.o = "use" -> e.r = "ok"
    [] OTHER -> FALSE

Init == t \in 1..Len(Traces) /\ i = 1
Next ==
  IF i = 1 /\ Field(Traces[t], "crash")
  THEN PrintT(<<"REJECT", Traces[t].id, 0>>) /\ i' = -1 /\ t' = t
  ELSE
  /\ i > 0 /\ i <= Len(Traces[t].ev)
  /\ IF Accept(Traces[t].ev[i]) THEN i' = i + 1 ELSE PrintT(<<"REJECT", Traces[t].id, i>>) /\ i' = -1
  /\ t' = t
Spec == Init /\ [][Next]_<<t, i>>
=============================================================================
