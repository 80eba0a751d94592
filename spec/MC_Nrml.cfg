SPECIFICATION Spec
CONSTANTS
  MaxSources = 1
  Edits = {"none", "without", "twice", "number", "word", "noid", "type", "broken", "swapped"}
INVARIANTS RoundTrip Decided Sound InOrder Apart
PROPERTIES NeverOkAgain SoundStays
CHECK_DEADLOCK FALSE
