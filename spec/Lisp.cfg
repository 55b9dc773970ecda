INIT Init
NEXT Next
VIEW View
INVARIANTS CleanupsDone NothingLeft HandlersInForce ExitHasTarget
CHECK_DEADLOCK FALSE
