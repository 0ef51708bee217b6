CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANTS Exact NoOvershoot ReferenceRight
\* PROPERTY Ends
CHECK_DEADLOCK FALSE
