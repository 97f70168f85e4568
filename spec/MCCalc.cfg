SPECIFICATION Spec
INVARIANT Accepted
INVARIANT Rejected
INVARIANT OnDemand
INVARIANT NoRecovery
CHECK_DEADLOCK FALSE
