-------------------------- MODULE DetectorLayersMC --------------------------
(* every layer stack up to MaxLayers over small value sets: run-length grouping  *)
(* in the file never changes a contiguous stack, and stacks are laid out as P15  *)
EXTENDS Detector
CONSTANTS Thick, Cell, Absorber, Gaps, MaxLayers
VARIABLE L
LInit == L = <<>> /\ mg = Empty /\ fl = Empty /\ seen = {}
LNext == /\ Len(L) < MaxLayers
         /\ \E t \in Thick, c \in Cell, a \in Absorber, p \in Gaps : L' = Append(L, <<t, c, c, a, p>>)
         /\ UNCHANGED vars
GapsDef == {Auto, 0, 2}
LSpec == LInit /\ [][LNext]_<<vars, L>>
Doc(t) == [Fresh EXCEPT !.det = [EcalBarrel |-> [k |-> "Cal", t |-> t, sym |-> 8, phi0 |-> 0, ext |-> IF t = 0 THEN <<0, 9>> ELSE <<1, 8, 0>>, layers |-> L, pars |-> <<>>]]]
GroupingSafe == \A t \in {0, 1} : RoundTrip(Doc(t)) /\ (Storable(Doc(t)) => Stable(Doc(t)))
GroupsMaximal == LET G == Group(L, 1, <<>>) IN \A j \in 1..Len(G)-1 : SubSeq(G[j], 2, 5) # SubSeq(G[j+1], 2, 5)
Follow == LET D == Dists(L, 1, <<>>) IN \A j \in 1..Len(L) : D[j] = Dist(L, j) /\ (L[j][5] = Auto => D[j] = IF j = 1 THEN 0 ELSE D[j-1] + L[j-1][1]) /\ (L[j][5] # Auto => D[j] = L[j][5])
=============================================================================
