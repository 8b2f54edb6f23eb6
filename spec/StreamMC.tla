------------------------------ MODULE StreamMC ------------------------------
(* How a stream buffer keeps the promises of TcpStream: a read buffer with  *)
(* a put-back area in front, a write buffer with one spare place, and a     *)
(* user thread that waits for operations that another thread completes.     *)
(* Designs that do not: waiting for a wake-up instead of the completion,    *)
(* moving the put-back area without noting it (when nothing could be read), *)
(* not moving it at all, keeping what could not be sent.                    *)
EXTENDS Integers, Sequences
CONSTANTS Size,   \* places in the read buffer
          Back,   \* of these, for bytes that can be put back
          Total,  \* bytes the peer sends; bytes the user writes
          Design  \* "sound", "spurious", "clobber", "nokeep", "grow"
Room == Size - Back          \* places in the write buffer, without the spare one
VARIABLES
  buf, eb, g, eg,   \* read buffer (byte numbers), its beginning, next place, end (1-based)
  st,               \* "idle", "reading", "woken" (read), "writing", "wokenw"
  net, fin,         \* bytes that have arrived and have not been taken; nothing more comes
  sent,             \* bytes that the peer has sent
  pos, hw,          \* where the user is
  last,             \* what the user was given last: <<expected, got>>
  back,             \* put-backs that were refused: distance from hw
  out, put, wire,   \* write buffer; bytes the user has written; what has been sent
  dead, told        \* nothing can be sent; the user knows
vars == <<buf, eb, g, eg, st, net, fin, sent, pos, hw, last, back, out, put, wire, dead, told>>
Init == /\ buf = [i \in 1..Size |-> -1] /\ eb = Back + 1 /\ g = Back + 1 /\ eg = Back + 1 /\ st = "idle" /\ net = << >> /\ fin = FALSE
        /\ sent = 0 /\ pos = 0 /\ hw = 0 /\ last = <<0, 0>> /\ back = Back /\ out = << >> /\ put = 0 /\ wire = << >> /\ dead = FALSE /\ told = FALSE
rv == <<buf, eb, g, eg, net, fin, sent, pos, hw, last, back>>
wv == <<out, put, wire, dead, told>>
Arrive == sent < Total /\ ~fin /\ sent' = sent + 1 /\ net' = Append(net, sent) /\ UNCHANGED <<buf, eb, g, eg, st, fin, pos, hw, last, back>> /\ UNCHANGED wv
Finish == ~fin /\ fin' = TRUE /\ UNCHANGED <<buf, eb, g, eg, st, net, sent, pos, hw, last, back>> /\ UNCHANGED wv
Take(b, at) == last' = <<pos, b[at]>> /\ pos' = pos + 1 /\ hw' = (IF pos + 1 > hw THEN pos + 1 ELSE hw)
Get == /\ st = "idle"
       /\ \/ g < eg /\ Take(buf, g) /\ g' = g + 1 /\ UNCHANGED <<buf, eb, eg, st, net, fin, sent, back>>
          \/ /\ g >= eg /\ st' = "reading" /\ UNCHANGED <<net, fin, sent, pos, hw, last, back>>
             /\ LET k == IF g - eb > Back THEN Back ELSE g - eb IN
                IF Design = "nokeep" THEN eb' = Back + 1 /\ g' = Back + 1 /\ eg' = Back + 1 /\ UNCHANGED buf
                ELSE /\ buf' = [i \in 1..Size |-> IF i \in (Back + 1 - k)..Back THEN buf[g - (Back + 1) + i] ELSE buf[i]]
                     /\ IF Design = "clobber" THEN UNCHANGED <<eb, g, eg>> ELSE eb' = Back + 1 - k /\ g' = Back + 1 /\ eg' = Back + 1
       /\ UNCHANGED wv
\* the operation completes: j bytes, or the end
Complete == /\ st = "reading"
            /\ \/ /\ net # << >> /\ \E j \in 1..Size - Back : j <= Len(net) /\ net' = SubSeq(net, j + 1, Len(net))
                     /\ buf' = [i \in 1..Size |-> IF i > Back /\ i <= Back + j THEN net[i - Back] ELSE buf[i]]
                     /\ LET k == IF g - eb > Back THEN Back ELSE g - eb IN eb' = Back + 1 - k
                     /\ g' = Back + 1 /\ eg' = Back + 1 + j /\ st' = "idle" /\ UNCHANGED <<fin, sent, pos, hw, last, back>>
               \/ net = << >> /\ fin /\ st' = "idle" /\ UNCHANGED <<buf, eb, g, eg, net, fin, sent, pos, hw, last, back>>
               \* woken up early: goes on as if 0 bytes had arrived, while the operation still fills the buffer
               \/ /\ Design = "spurious" /\ net # << >> /\ net' = Tail(net) /\ st' = "idle" /\ UNCHANGED <<eb, g, eg, fin, sent, hw, back>>
                  /\ buf' = [buf EXCEPT ![Back + 1] = Head(net)] /\ last' = <<pos, buf[Back + 1]>> /\ pos' = pos
            /\ UNCHANGED wv
Unget == /\ st = "idle" /\ pos > 0
         /\ IF g > eb THEN g' = g - 1 /\ pos' = pos - 1 /\ UNCHANGED back ELSE back' = (IF hw - pos < back THEN hw - pos ELSE back) /\ UNCHANGED <<g, pos>>
         /\ UNCHANGED <<buf, eb, eg, st, net, fin, sent, hw, last>> /\ UNCHANGED wv
(* ------------------------------- writing ------------------------------- *)
Put == /\ st = "idle" /\ put < Total /\ put' = put + 1 /\ out' = Append(out, put) /\ UNCHANGED <<wire, dead, told>>
       /\ st' = IF Len(out) >= Room THEN "writing" ELSE "idle"
       /\ UNCHANGED rv
Flush == st = "idle" /\ out # << >> /\ st' = "writing" /\ UNCHANGED rv /\ UNCHANGED wv
Break == ~dead /\ dead' = TRUE /\ UNCHANGED <<out, put, wire, told>> /\ UNCHANGED rv /\ UNCHANGED st
Sent == /\ st = "writing" /\ st' = "idle" /\ UNCHANGED rv /\ UNCHANGED <<put, dead>>
        /\ IF dead THEN told' = TRUE /\ wire' = wire /\ out' = (IF Design = "grow" THEN out ELSE << >>)
           ELSE UNCHANGED told /\ wire' = wire \o out /\ out' = << >>
Next == Arrive \/ Finish \/ Get \/ Complete \/ Unget \/ Put \/ Flush \/ Break \/ Sent
Spec == Init /\ [][Next]_vars
(* ------------------------------ what holds ----------------------------- *)
\* the user gets the bytes in order, after put-backs again
InOrder == last[1] = last[2] \/ hw = 0
\* as many as promised can be put back
Kept == back >= Back
Inside == Len(out) <= Room + 1 /\ eg <= Size + 1 /\ g <= eg /\ eb >= 1 /\ eb <= g
\* the next byte to read is in the buffer, or arrives: nothing is skipped
NoneLost == /\ st = "idle" => IF g < eg THEN buf[g] = pos /\ (net # << >> => net[1] = pos + (eg - g)) ELSE net # << >> => net[1] = pos
            /\ \A i \in 1..Len(wire) : wire[i] = i - 1
            /\ ~told => Len(wire) + Len(out) = put
=============================================================================
