---------------------------------- MODULE Fog ----------------------------------
(* Fog data of a fog trigger: colours and blend factors for 21 layers, or for  *)
(* 21 layers and 25 sublayers each, and a gradient of three colours.           *)
EXTENDS Naturals, Integers, Sequences
NLayers == 21
NSub == 25
NoSub == -1
Legal(layer, sub) == layer \in 0..(NLayers - 1) /\ (sub = NoSub \/ sub \in 0..(NSub - 1))
(* whole layers first, then the layers of each sublayer *)
Index(layer, sub) == IF sub = NoSub THEN layer ELSE (sub + 1) * NLayers + layer
Want(hassub) == IF hassub THEN NLayers * (NSub + 1) ELSE NLayers
Fit(s, n, fill) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE fill]
Colour0 == [t |-> 3, n |-> 1118488]           \* 0x111118
Per0 == [t |-> 4, i |-> 0, f |-> 0]
Grad0 == [t |-> 3, n |-> 0]
=============================================================================
