SPECIFICATION Spec
CONSTANTS MaxTokens = 5  MaxChunk = 12  MaxFeeds = 12
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
