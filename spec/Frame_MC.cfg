SPECIFICATION MSpec
INVARIANTS OddWeight NoCycle Invertible
