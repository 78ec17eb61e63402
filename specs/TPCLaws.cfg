SPECIFICATION MSpec
CONSTANTS Ms = {1}
 Ts = {1}
 MaxOps = 3
 Mods <- ModsQuick
 Places <- PlacesQuick
 Zs <- ZsQuick
VIEW MView
CONSTRAINT Bound
INVARIANT TLaws
CHECK_DEADLOCK FALSE
