SPECIFICATION MCSpec
CONSTANTS
 TypeChecks = TRUE
PROPERTIES PropC01 PropC02 PropC03 PropC04 PropC05 PropC06 PropC07 PropC09 PropC11 PropC15 PropC16 PropC17 PropC20
VIEW View
INVARIANTS AllWellFormed IndicesIssued
CHECK_DEADLOCK FALSE
