SPECIFICATION TraceSpec
INVARIANT Lossless
INVARIANT PreLossless
INVARIANT Injective
INVARIANT NoArchiveIsCut
