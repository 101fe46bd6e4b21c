------------------------------ MODULE TimerModel ------------------------------
(* All histories of a timer up to a bound; the elapsed time is shown to be the *)
(* time that passed while it was running since the last start.                 *)
EXTENDS Timer, TLC, Json
CONSTANTS Depth, Adv, Emit
VARIABLES ran, hist
\* ran: time that passed while timer 0 was running since its last start or
\* creation (counted by the environment)
mvars == <<now, tm, auto, ran, hist>>
Init == TInit /\ ran = Zero /\ hist = <<>>
Op(s) == hist' = Append(hist, s)
Step ==
  \/ \E d \in Adv : /\ Advance(<<3 * d, 10 * (d % 3), 10 * (d \div 3)>>) /\ Op(<<"adv", 3 * d, d % 3, d \div 3>>)
                    /\ ran' = IF tm[0].run THEN Plus(ran, <<3 * d, 10 * (d % 3), 10 * (d \div 3)>>) ELSE ran
  \/ \E b \in {0, 1} : New(0, b = 1) /\ ran' = Zero /\ Op(<<"new", 0, b>>)
  \/ Start(0) /\ ran' = Zero /\ Op(<<"start", 0>>)
  \/ Stop(0) /\ UNCHANGED ran /\ Op(<<"stop", 0>>)
  \/ Resume(0) /\ UNCHANGED ran /\ Op(<<"resume", 0>>)
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_mvars
ElapsedIsRunningTime == tm[0].made => Elapsed(tm[0]) = ran
StoppedStays == [][(tm[0].made /\ ~tm[0].run /\ tm'[0] = tm[0]) => Elapsed(tm[0])' = Elapsed(tm[0])]_mvars
Out == (Emit /\ Len(hist) = Depth) => PrintT("BEH" \o ToJson(hist))
===============================================================================
