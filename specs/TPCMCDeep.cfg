SPECIFICATION MSpec
CONSTANTS Ms = {1, 2}
 Ts = {1, 2}
 MaxOps = 4
 Mods <- ModsQuick
 Places <- PlacesQuick
 Zs <- ZsQuick
VIEW MView
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
