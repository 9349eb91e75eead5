SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MODE = "bad" MaxLeaf = 2 Inner = 2 MaxFan = 2 EMIT = FALSE
POLS = {{"L","R","Z"},{},{"Z"},{"L"},{"R"},{"L","Z"},{"R","Z"},{"L","R"}}
INVARIANTS Usable GoodInv BadInv
