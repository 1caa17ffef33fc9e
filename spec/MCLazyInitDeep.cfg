SPECIFICATION Spec
INVARIANTS BuiltOnce Same Whole
PROPERTY Finished
CONSTANTS
  Threads = {t1, t2, t3, t4, t5, t6}
  Entries = 4
  Once = TRUE
  Uses = 2
CHECK_DEADLOCK FALSE
