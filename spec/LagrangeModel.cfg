SPECIFICATION Spec
INVARIANTS Unity Delta Repro GradUnity Trace Ordered
CHECK_DEADLOCK FALSE
