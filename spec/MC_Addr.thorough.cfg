SPECIFICATION Spec
CONSTANTS Ups <- UpsT
 Los <- LosT
INVARIANTS RoundTrip OctetsOK
CHECK_DEADLOCK FALSE
