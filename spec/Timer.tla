-------------------------------- MODULE Timer ---------------------------------
(* Timers. A timer is stopped with an accumulated time, or running since an    *)
(* instant with the time accumulated before. Times are triples <<wall, user,   *)
(* system>> in ms of a clock that the environment advances.                    *)
EXTENDS Integers, Sequences
VARIABLES now, tm, auto
\* now: clock; tm: function from timers to records; auto: start of the automatic
\* timer, or <<>>; sink kinds: 0 stream, 1 logger, 2 logger below its level
tvars == <<now, tm, auto>>
Zero == <<0, 0, 0>>
Plus(a, b) == [k \in 1..3 |-> a[k] + b[k]]
Minus(a, b) == [k \in 1..3 |-> a[k] - b[k]]
NoTimer == [run |-> FALSE, acc |-> Zero, since |-> Zero, made |-> FALSE]
TInit == now = Zero /\ tm = [i \in 0..2 |-> NoTimer] /\ auto = <<>>

Elapsed(t) == IF t.run THEN Plus(t.acc, Minus(now, t.since)) ELSE t.acc

Advance(d) == now' = Plus(now, d) /\ UNCHANGED <<tm, auto>>
New(i, run) == tm' = [tm EXCEPT ![i] = [run |-> run, acc |-> Zero, since |-> now, made |-> TRUE]] /\ UNCHANGED <<now, auto>>
CopyTimer(i, j) == tm[j].made /\ tm' = [tm EXCEPT ![i] = tm[j]] /\ UNCHANGED <<now, auto>>
Start(i) == tm[i].made /\ tm' = [tm EXCEPT ![i] = [run |-> TRUE, acc |-> Zero, since |-> now, made |-> TRUE]] /\ UNCHANGED <<now, auto>>
Stop(i) == tm[i].made /\ tm' = [tm EXCEPT ![i] = [run |-> FALSE, acc |-> Elapsed(tm[i]), since |-> now, made |-> TRUE]] /\ UNCHANGED <<now, auto>>
Resume(i) == tm[i].made /\ tm' = [tm EXCEPT ![i] = [run |-> TRUE, acc |-> Elapsed(tm[i]), since |-> now, made |-> TRUE]] /\ UNCHANGED <<now, auto>>
AutoNew(k) == auto = <<>> /\ auto' = <<k, now>> /\ UNCHANGED <<now, tm>>
AutoElapsed == Minus(now, auto[2])
AutoEnd == auto # <<>> /\ auto' = <<>> /\ UNCHANGED <<now, tm>>

\* the formatted values f (seconds with three digits, read back as ms; percent
\* times 1000) of the elapsed times el
FormatOK(el, f) ==
  /\ Len(f) = 5
  /\ f[1] = el[1] /\ f[2] = el[2] /\ f[3] = el[3] /\ f[4] = el[2] + el[3]
  /\ el[1] > 0 => LET d == f[5] * el[1] - 100000 * (el[2] + el[3])
                  IN d <= el[1] /\ -d <= el[1]
\* lines an automatic timer of kind k prints when it reports
ReportOK(k, el, out) == IF k = 2 THEN out = <<>> ELSE Len(out) = 1 /\ FormatOK(el, out[1])
===============================================================================
