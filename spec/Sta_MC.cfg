SPECIFICATION MCSpec
INVARIANT MCInv
