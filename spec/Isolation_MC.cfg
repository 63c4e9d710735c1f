SPECIFICATION MCSpec
INVARIANT MCInv
CONSTANT SHARE = FALSE
