------------------------------ MODULE AegisKat ------------------------------
EXTENDS Aegis
\* test vectors of the AEGIS submission (v1.1)
ASSUME Seal(Zeros(16), Zeros(16), <<>>, Zeros(16)) =
  [ct  |-> <<149,27,5,15,167,43,26,47,193,109,46,31,1,176,125,126>>,
   tag |-> <<167,210,169,151,115,36,149,66,244,34,33,126,232,136,213,241>>]
Spec == AegisInit /\ [][UNCHANGED sess]_vars
=============================================================================
