SPECIFICATION Spec
CONSTANTS Infos <- InfosQ
 Wins <- WinsQ
 MaxOps = 5
 Damages = {0, 1, 5, 129, 255}
INVARIANTS TypeOK Agreement OfferRoundTrip
VIEW View
CHECK_DEADLOCK FALSE
