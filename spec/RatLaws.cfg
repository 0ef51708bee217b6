CONSTANTS N = 4
 D = 4
SPECIFICATION Spec
INVARIANT Laws
