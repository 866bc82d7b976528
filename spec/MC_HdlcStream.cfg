SPECIFICATION Spec
CONSTANTS MaxTokens = 2  MaxChunk = 45  MaxFeeds = 4
INVARIANTS ChunkingIndependent OnlyWhatWasSent BufferIsSuffix NoLoss NoPhantom
VIEW View
CHECK_DEADLOCK FALSE
