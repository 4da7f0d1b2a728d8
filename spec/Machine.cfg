SPECIFICATION MSpec
CONSTANT HasCbor = TRUE
INVARIANT Outcome
INVARIANT Conserved
INVARIANT Paired
INVARIANT Depth
INVARIANT Ends
PROPERTY Restores
PROPERTY FaultsStay
