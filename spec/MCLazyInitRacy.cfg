SPECIFICATION Spec
INVARIANTS BuiltOnce Same Whole
PROPERTY Finished
CONSTANTS
  Threads = {t1, t2}
  Entries = 2
  Once = FALSE
  Uses = 1
CHECK_DEADLOCK FALSE
