------------------------------ MODULE EnemyData ------------------------------
(* Filth carried by each enemy type (name as character codes); other entities   *)
(* carry none.  In order: three types the harness defines itself (verif_foe, verif_calm, verif_heir), enemy_slime_beast, enemy_slime_barrel, enemy_spring_ball, enemy_slime_ball, enemy_trash_tire, enemy_trash_beast, enemy_trash_can, enemy_trash_ball, enemy_bear, enemy_stoneboss, enemy_stonebro, enemy_wolf, enemy_critter, enemy_flag, enemy_chest_treasure, enemy_chest_scrolls, enemy_knight, enemy_gargoyle_big, enemy_gargoyle_small, enemy_book, enemy_hawk, enemy_key, enemy_door, enemy_tutorial_square, enemy_tutorial_hexagon, enemy_porcupine, enemy_scrolls, enemy_treasure, enemy_butler, enemy_maid *)
FilthTable == <<
    [n |-> << 118, 101, 114, 105, 102, 95, 102, 111, 101 >>, f |-> 7],
    [n |-> << 118, 101, 114, 105, 102, 95, 99, 97, 108, 109 >>, f |-> 0],
    [n |-> << 118, 101, 114, 105, 102, 95, 104, 101, 105, 114 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 108, 105, 109, 101, 95, 98, 101, 97, 115, 116 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 108, 105, 109, 101, 95, 98, 97, 114, 114, 101, 108 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 112, 114, 105, 110, 103, 95, 98, 97, 108, 108 >>, f |-> 5],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 108, 105, 109, 101, 95, 98, 97, 108, 108 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 114, 97, 115, 104, 95, 116, 105, 114, 101 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 114, 97, 115, 104, 95, 98, 101, 97, 115, 116 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 114, 97, 115, 104, 95, 99, 97, 110 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 114, 97, 115, 104, 95, 98, 97, 108, 108 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 98, 101, 97, 114 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 116, 111, 110, 101, 98, 111, 115, 115 >>, f |-> 12],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 116, 111, 110, 101, 98, 114, 111 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 119, 111, 108, 102 >>, f |-> 5],
    [n |-> << 101, 110, 101, 109, 121, 95, 99, 114, 105, 116, 116, 101, 114 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 102, 108, 97, 103 >>, f |-> 5],
    [n |-> << 101, 110, 101, 109, 121, 95, 99, 104, 101, 115, 116, 95, 116, 114, 101, 97, 115, 117, 114, 101 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 99, 104, 101, 115, 116, 95, 115, 99, 114, 111, 108, 108, 115 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 107, 110, 105, 103, 104, 116 >>, f |-> 9],
    [n |-> << 101, 110, 101, 109, 121, 95, 103, 97, 114, 103, 111, 121, 108, 101, 95, 98, 105, 103 >>, f |-> 5],
    [n |-> << 101, 110, 101, 109, 121, 95, 103, 97, 114, 103, 111, 121, 108, 101, 95, 115, 109, 97, 108, 108 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 98, 111, 111, 107 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 104, 97, 119, 107 >>, f |-> 3],
    [n |-> << 101, 110, 101, 109, 121, 95, 107, 101, 121 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 100, 111, 111, 114 >>, f |-> 0],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 117, 116, 111, 114, 105, 97, 108, 95, 115, 113, 117, 97, 114, 101 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 117, 116, 111, 114, 105, 97, 108, 95, 104, 101, 120, 97, 103, 111, 110 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 112, 111, 114, 99, 117, 112, 105, 110, 101 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 115, 99, 114, 111, 108, 108, 115 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 116, 114, 101, 97, 115, 117, 114, 101 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 98, 117, 116, 108, 101, 114 >>, f |-> 1],
    [n |-> << 101, 110, 101, 109, 121, 95, 109, 97, 105, 100 >>, f |-> 1] >>
=============================================================================
