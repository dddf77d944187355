SPECIFICATION MCSpec
CONSTANTS
 M = 2
 MaxClauses = 1
 Static = TRUE
INVARIANTS Sound OnlySolutions Complete Once BoundsTold
