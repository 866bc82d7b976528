SPECIFICATION Spec
CONSTANTS MaxTokens = 3  MaxChunk = 70  MaxFeeds = 4
INVARIANTS ChunkingIndependent OnlyWhatWasSent BufferIsSuffix NoLoss NoPhantom
VIEW View
CHECK_DEADLOCK FALSE
