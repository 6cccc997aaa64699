SPECIFICATION MCSpec
CONSTANT Opts = {1, 2}
CONSTANT Steps = 4
INVARIANT Lossless
INVARIANT PreLossless
INVARIANT Injective
INVARIANT NoArchiveIsCut
INVARIANT CanDecode
INVARIANT CannotLose
INVARIANT CannotVary
