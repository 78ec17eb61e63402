SPECIFICATION MSpec
CONSTANTS Ms = {1}
 Ts = {1}
 MaxOps = 4
 Mods <- ModsDeep
 Places <- PlacesDeep
 Zs <- ZsQuick
VIEW MView
CONSTRAINT Bound
INVARIANT TLaws
CHECK_DEADLOCK FALSE
