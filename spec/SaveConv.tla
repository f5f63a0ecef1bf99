------------------------------ MODULE SaveConv ------------------------------
(* Conversion of a vanilla save to a Dustmod save. A save is a set of named    *)
(* variables; its scores are a sequence of entries with a level name n.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* the levels of the nexus, four worlds of four tiers of four doors *)
Levels ==
  << "downhill", "shadedgrove", "dahlia", "fields", "momentum", "fireflyforest", "tunnels", "momentum2",
     "suntemple", "ascent", "summit", "grasscave", "den", "autumnforest", "garden", "hyperdifficult",
     "atrium", "secretpassage", "alcoves", "mezzanine", "cave", "cliffsidecaves", "library", "courtyard",
     "precarious", "treasureroom", "arena", "ramparts", "moontemple", "observatory", "parapets", "brimstone",
     "vacantlot", "sprawl", "development", "abandoned", "park", "boxes", "chemworld", "factory",
     "tunnel", "basement", "scaffold", "cityrun", "clocktower", "concretetemple", "alley", "hideout",
     "control", "ferrofluid", "titan", "satellite", "vat", "venom", "security", "mary",
     "wiringfixed", "containment", "orb", "pod", "mary2", "coretemple", "abyss", "dome" >>
LevelSet == { Levels[i] : i \in 1..64 }
Known(n) == n \in LevelSet
Index(n) == CHOOSE i \in 1..64 : Levels[i] = n
Tier(n) == ((Index(n) - 1) \div 4) % 4          \* 0: open, 1: wood, 2: silver, 3: gold
KeyType(n) == IF Tier(n) = 0 THEN 4 ELSE Tier(n)
Copied == { "citybook", "custombook", "forestbook", "labbook", "leveleditorbook", "mansionbook", "userbook", "virtualbookk" }
Made == { "k_score", "k_root", "k_wood_used", "k_silver_used", "k_gold_used", "k_red_used", "k_ngplus" }

Count(scores, tier) == Cardinality({ i \in DOMAIN scores : Known(scores[i].n) /\ Tier(scores[i].n) = tier })

(* lexicographic order of byte sequences *)
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE
             ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Leq(Tail(a), Tail(b))
=============================================================================
