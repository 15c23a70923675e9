------------------------------ MODULE TraceEtm ------------------------------
EXTENDS EtmChannel, TraceBase
TraceInit == EtmInit /\ l = 1
TraceNext ==
  \/ Is("Keys") /\ Keys(E.s, E.mode, E.mac, E.enc, E.iv)
  \/ Is("Forget") /\ Forget
  \/ Is("Send") /\ Send(E.s, E.iv, E.in, E.ct, E.tag)
  \/ Is("Receive") /\ Receive(E.s, E.iv, E.ct, E.tag, E.res = 1, E.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
