SPECIFICATION Spec
INVARIANTS SameAsWritten OppSymmetric NarrowTypes Emit
CHECK_DEADLOCK FALSE
