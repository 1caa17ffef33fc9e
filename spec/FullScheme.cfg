SPECIFICATION Spec
INVARIANT Law
CONSTANT Which = {"signed", "high", "recovers", "recoversHigh", "complete", "strict", "twin", "shared", "tweaks", "undone"}
CHECK_DEADLOCK FALSE
