SPECIFICATION MSpec
INVARIANTS Nothing Few
PROPERTY Returns
