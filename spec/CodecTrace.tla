---------------------------- MODULE CodecTrace -----------------------------
(* One record per call recorded from the real code: operation, input, result. *)
EXTENDS Codec, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, verdict
vars == <<n, verdict>>
Guard == 165
Good(r) ==
  CASE r.op = "b64enc"  -> r.ok /\ r.out = B64Encode(r.in)
    [] r.op = "b64dec"  -> B64DecodeOK(r.in, r.ok, r.out)
    [] r.op = "urlenc"  -> r.out = UrlEncode(r.in)
    [] r.op = "urldec"  -> r.out = UrlDecode(r.in)
    [] r.op = "xmlenc"  -> r.out = XmlEncode(r.in)
    [] r.op = "from"    -> r.out = Fill(Guard, 4) \o Low(r.in, r.k) \o Fill(Guard, 4)
    [] r.op = "to"      -> r.out = ReadInt(r.in, r.signed)
    [] r.op = "fromflt" -> r.out = Fill(Guard, 4) \o SubSeq(r.out, 5, 4 + Len(r.in)) \o Fill(Guard, 4)
                           /\ SameFloat(r.in, SubSeq(r.out, 5, 4 + Len(r.in)))
    [] r.op = "toflt"   -> SameFloat(r.in, r.out)
    [] r.op = "fromld"  -> SameQuad(r.in, r.out)
    [] r.op = "told"    -> SameQuad(r.out, r.in)
Init == n \in 1..Len(Log) /\ verdict = "?"
Decide == /\ verdict = "?"
          /\ verdict' = IF Good(Log[n]) THEN "ok" ELSE "the specified result is different"
          /\ PrintT(<<"@@", Log[n].id, verdict'>>)
          /\ UNCHANGED n
Spec == Init /\ [][Decide]_vars
=============================================================================
