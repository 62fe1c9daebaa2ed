--------------------------- MODULE BlockCyclicMC ---------------------------
EXTENDS BlockCyclic
CONSTANTS TS, TPB, GS, Periods, Extra
\* small exhaustive domain; the element part and the tile part are independent, so the tile part is
\* enumerated with one-element tiles
ElementConfigs == {<<t, 1, 1, 0, 0, o>> : t \in 1..TS, o \in 0..(TS-1)}
TileConfigs == {<<1, b, g, s, o, 0>> : b \in 1..TPB, g \in 1..GS, s \in 0..(GS-1), o \in 0..(TPB-1)}
MCConfigs == {c \in ElementConfigs \cup TileConfigs \cup Extra :
                 /\ c[6] < c[1] /\ c[5] < c[2] /\ c[4] < c[3]}
MCMax(c) == IF c \in Extra THEN Periods * c[1] * c[2] * c[3] + 1 ELSE Periods * c[1] * c[2] * c[3] + 2
============================================================================
