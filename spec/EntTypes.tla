----------------------------- MODULE EntTypes -----------------------------
(* Which class represents an entity type: the class the library documents for *)
(* the type, unless the user has defined one for it since (the latest counts), *)
(* and the generic class for every other type.                                 *)
EXTENDS Naturals, Sequences
Builtin == <<
    [i |-> "AI_controller", c |-> "AIController"],
    [i |-> "ambience_trigger", c |-> "AmbienceTrigger"],
    [i |-> "base_trigger", c |-> "Trigger"],
    [i |-> "camera_node", c |-> "CameraNode"],
    [i |-> "check_point", c |-> "CheckPoint"],
    [i |-> "custom_score_book", c |-> "CustomScoreBook"],
    [i |-> "dust_girl", c |-> "Dustgirl"],
    [i |-> "dust_kid", c |-> "Dustkid"],
    [i |-> "dust_man", c |-> "Dustman"],
    [i |-> "dust_worth", c |-> "Dustworth"],
    [i |-> "dust_wraith", c |-> "Dustwraith"],
    [i |-> "enemy_bear", c |-> "EnemyBear"],
    [i |-> "enemy_book", c |-> "EnemyBook"],
    [i |-> "enemy_butler", c |-> "EnemyButler"],
    [i |-> "enemy_chest_scrolls", c |-> "EnemyChestScrolls"],
    [i |-> "enemy_chest_treasure", c |-> "EnemyChestTreasure"],
    [i |-> "enemy_critter", c |-> "EnemyTurkey"],
    [i |-> "enemy_door", c |-> "EnemyDoor"],
    [i |-> "enemy_flag", c |-> "EnemyFlag"],
    [i |-> "enemy_gargoyle_big", c |-> "EnemyGargoyleBig"],
    [i |-> "enemy_gargoyle_small", c |-> "EnemyGargoyleSmall"],
    [i |-> "enemy_hawk", c |-> "EnemyHawk"],
    [i |-> "enemy_key", c |-> "EnemyKey"],
    [i |-> "enemy_knight", c |-> "EnemyKnight"],
    [i |-> "enemy_maid", c |-> "EnemyMaid"],
    [i |-> "enemy_porcupine", c |-> "EnemyPorcupine"],
    [i |-> "enemy_scrolls", c |-> "EnemyScroll"],
    [i |-> "enemy_slime_ball", c |-> "EnemySlimeBall"],
    [i |-> "enemy_slime_barrel", c |-> "EnemySlimeBarrel"],
    [i |-> "enemy_slime_beast", c |-> "EnemySlimeBeast"],
    [i |-> "enemy_spring_ball", c |-> "EnemySpringBall"],
    [i |-> "enemy_stoneboss", c |-> "EnemyTotemLarge"],
    [i |-> "enemy_stonebro", c |-> "EnemyTotemSmall"],
    [i |-> "enemy_trash_ball", c |-> "EnemyTrashBall"],
    [i |-> "enemy_trash_beast", c |-> "EnemyTrashBeast"],
    [i |-> "enemy_trash_can", c |-> "EnemyTrashCan"],
    [i |-> "enemy_trash_tire", c |-> "EnemyTrashTire"],
    [i |-> "enemy_treasure", c |-> "EnemyTreasure"],
    [i |-> "enemy_tutorial_hexagon", c |-> "EnemyHeavyPrism"],
    [i |-> "enemy_tutorial_square", c |-> "EnemyLightPrism"],
    [i |-> "enemy_wolf", c |-> "EnemyWolf"],
    [i |-> "entity_emitter", c |-> "Emitter"],
    [i |-> "fog_trigger", c |-> "FogTrigger"],
    [i |-> "giga_gate", c |-> "RedKeyDoor"],
    [i |-> "hittable_apple", c |-> "Apple"],
    [i |-> "kill_box", c |-> "DeathZone"],
    [i |-> "leaf_sprite", c |-> "Leafsprite"],
    [i |-> "level_door", c |-> "LevelDoor"],
    [i |-> "level_end", c |-> "LevelEnd"],
    [i |-> "level_end_prox", c |-> "EndZone"],
    [i |-> "music_trigger", c |-> "MusicTrigger"],
    [i |-> "score_book", c |-> "ScoreBook"],
    [i |-> "slime_boss", c |-> "Slimeboss"],
    [i |-> "special_trigger", c |-> "SpecialTrigger"],
    [i |-> "text_trigger", c |-> "TextTrigger"],
    [i |-> "trash_king", c |-> "Trashking"],
    [i |-> "z_string_list", c |-> "StringList"] >>
BuiltinFor(t) == { k \in DOMAIN Builtin : Builtin[k].i = t }
ClassOf(defs, t) ==
    LET mine == { k \in DOMAIN defs : defs[k].i = t } IN
    IF mine # {} THEN defs[CHOOSE k \in mine : \A j \in mine : j <= k].c
    ELSE IF BuiltinFor(t) # {} THEN Builtin[CHOOSE k \in BuiltinFor(t) : TRUE].c
    ELSE "Entity"
ASSUME \A j, k \in DOMAIN Builtin : j # k => Builtin[j].i # Builtin[k].i
=============================================================================
