-------------------------- MODULE TraceCfbChannel --------------------------
EXTENDS CfbChannel, TraceBase
TraceInit == ChInit /\ l = 1
TraceNext ==
  \/ Is("Initialize") /\ Initialize(E.s, E.key, E.iv)
  \/ Is("Encrypt") /\ Encrypt(E.s, E.in, E.out)
  \/ Is("Decrypt") /\ Decrypt(E.s, E.from, E.in, E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
