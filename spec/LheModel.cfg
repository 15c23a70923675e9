SPECIFICATION Spec
CONSTANTS M = 2
 Slots = {1, 2, 3}
INVARIANT Carries
