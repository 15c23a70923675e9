SPECIFICATION Spec
CONSTANTS Ivs = {1, 2, 3}
 Ads = {1, 2}
 Msgs = {1, 2}
 MaxSeals = 2
 TagWords = 2
INVARIANT AcceptedIffGenuine
INVARIANT Released
CHECK_DEADLOCK FALSE
