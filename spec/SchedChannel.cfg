SPECIFICATION Spec
CONSTANTS Lens = {0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 18, 20, 31, 33}
 Fates = {"drop", "corrupt", "wrongiv"}
VIEW View
INVARIANT TypeOK
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
