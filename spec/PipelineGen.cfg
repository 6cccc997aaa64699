SPECIFICATION GenSpec
CONSTANT Opts = {1, 2, 3}
CONSTANT Steps = 24
INVARIANT Show
