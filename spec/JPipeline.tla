----------------------------- MODULE JPipeline ------------------------------
EXTENDS Integers, Sequences, Judge
P == INSTANCE Pipeline WITH CELLS <- 1, LISTS <- 1, LATCH <- TRUE, PERROW <- TRUE, ph <- "", opt <- <<>>, i <- 0, found <- 0,
       held <- {}, prog <- <<>>, yes <- FALSE, answered <- <<>>, fatal <- FALSE, result <- ""
CancelFailed(t) ==
  IF Crashed(t) THEN {"crash"}
  ELSE UNION {P!RunOk(t.runs[k], t.runs[1].hash) : k \in 1 .. Len(t.runs)}
=============================================================================
