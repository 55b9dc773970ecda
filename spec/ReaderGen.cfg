INIT Init
NEXT Next
VIEW View
INVARIANTS WellFormed Same Told
PROPERTIES Kept Stays
CHECK_DEADLOCK FALSE
