SPECIFICATION SpecAll
CONSTANTS Infos <- InfosG
 Wins <- WinsG
 MaxOps = 2
 Damages = {}
INVARIANTS TypeOK Agreement OfferRoundTrip
VIEW View
CHECK_DEADLOCK FALSE
