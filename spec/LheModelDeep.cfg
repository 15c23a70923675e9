SPECIFICATION Spec
CONSTANTS M = 4
 Slots = {1, 2, 3}
INVARIANT Carries
