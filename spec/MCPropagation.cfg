SPECIFICATION MCSpec
CONSTANTS
 M = 1
 MaxClauses = 2
 Static = FALSE
INVARIANTS Sound OnlySolutions Complete Once BoundsTold
