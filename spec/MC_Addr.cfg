SPECIFICATION Spec
CONSTANTS Ups <- UpsQ
 Los <- LosQ
INVARIANTS RoundTrip OctetsOK
CHECK_DEADLOCK FALSE
