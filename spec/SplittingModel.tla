---------------------------- MODULE SplittingModel ----------------------------
(* The alternation of diffusion and growth as a state machine.  Times are counted *)
(* in half steps.                                                                 *)
EXTENDS Integers, Sequences
CONSTANT Steps              \* largest number of time steps
VARIABLES m, pc, i, dt, rt, ops
vars == <<m, pc, i, dt, rt, ops>>
Init == m \in 1..Steps /\ pc = "first" /\ i = 1 /\ dt = 0 /\ rt = 0 /\ ops = <<>>
First == pc = "first" /\ dt' = 1 /\ ops' = <<"d">> /\ pc' = "grow" /\ UNCHANGED <<m, i, rt>>
Grow == pc = "grow" /\ rt' = rt + 2 /\ ops' = Append(ops, "R") /\ pc' = (IF i = m THEN "last" ELSE "diffuse") /\ UNCHANGED <<m, i, dt>>
Diffuse == pc = "diffuse" /\ dt' = dt + 2 /\ ops' = Append(ops, "D") /\ i' = i + 1 /\ pc' = "grow" /\ UNCHANGED <<m, rt>>
Last == pc = "last" /\ dt' = dt + 1 /\ ops' = Append(ops, "d") /\ pc' = "done" /\ UNCHANGED <<m, i, rt>>
Next == First \/ Grow \/ Diffuse \/ Last \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* both parts reach the final time, never apart by more than half a step, and the
\* sequence of operations reads the same backwards
FinalTime == pc = "done" => dt = 2 * m /\ rt = 2 * m /\ i = m
Together == dt - rt \in -1..1
Symmetric == pc = "done" => \A k \in 1..Len(ops) : ops[k] = ops[Len(ops) + 1 - k]
Length == pc = "done" => Len(ops) = 2 * m + 1
Ends == <>(pc = "done")
===============================================================================
