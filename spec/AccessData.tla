----------------------------- MODULE AccessData -----------------------------
(* The documented accessors: for each family of classes, attribute a, the      *)
(* variable k behind it, its type t and its default d.                         *)
Families ==
  <<
    [classes |-> { "AIController" },
     attrs |->
       << [a |-> "node_wait_times", k |-> "nodes_wait_time", t |-> 15, d |-> [t |-> 15, et |-> 2, a |-> << >>]],
          [a |-> "nodes", k |-> "nodes", t |-> 15, d |-> [t |-> 15, et |-> 10, a |-> << >>]],
          [a |-> "puppet", k |-> "puppet_id", t |-> 3, d |-> [t |-> 3, n |-> 0]] >>],
    [classes |-> { "AmbienceTrigger" },
     attrs |->
       << [a |-> "sound_names", k |-> "sound_ambience_names", t |-> 15, d |-> [t |-> 15, et |-> 5, a |-> << >>]],
          [a |-> "sound_vols", k |-> "sound_ambience_vol", t |-> 15, d |-> [t |-> 15, et |-> 4, a |-> << >>]],
          [a |-> "speed", k |-> "ambience_speed", t |-> 4, d |-> [t |-> 4, i |-> 5, f |-> 0]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "Apple", "DustCharacter", "Dustgirl", "Dustkid", "Dustman", "Dustworth", "Dustwraith", "Enemy", "EnemyBear", "EnemyBook", "EnemyButler", "EnemyChestScrolls", "EnemyChestTreasure", "EnemyDoor", "EnemyFlag", "EnemyGargoyleBig", "EnemyGargoyleSmall", "EnemyHawk", "EnemyHeavyPrism", "EnemyKnight", "EnemyLightPrism", "EnemyMaid", "EnemyPorcupine", "EnemyScroll", "EnemySlimeBall", "EnemySlimeBarrel", "EnemySlimeBeast", "EnemySpringBall", "EnemyTotemLarge", "EnemyTotemSmall", "EnemyTrashBall", "EnemyTrashBeast", "EnemyTrashCan", "EnemyTreasure", "EnemyTurkey", "EnemyWolf", "EntityHittable", "Leafsprite", "Slimeboss", "Trashking" },
     attrs |->
       << [a |-> "scale", k |-> "dm_scale", t |-> 4, d |-> [t |-> 4, i |-> 1, f |-> 0]] >>],
    [classes |-> { "CameraNode" },
     attrs |->
       << [a |-> "control_widths", k |-> "control_widths", t |-> 15, d |-> [t |-> 15, et |-> 10, a |-> << >>]],
          [a |-> "node_type", k |-> "node_type", t |-> 2, d |-> [t |-> 2, n |-> 1]],
          [a |-> "nodes", k |-> "c_node_ids", t |-> 15, d |-> [t |-> 15, et |-> 3, a |-> << >>]],
          [a |-> "test_widths", k |-> "test_widths", t |-> 15, d |-> [t |-> 15, et |-> 2, a |-> << >>]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 520]],
          [a |-> "zoom", k |-> "zoom_h", t |-> 2, d |-> [t |-> 2, n |-> 1080]] >>],
    [classes |-> { "CheckPoint" },
     attrs |->
       << [a |-> "trigger_areas", k |-> "trigger_area", t |-> 15, d |-> [t |-> 15, et |-> 10, a |-> << >>]] >>],
    [classes |-> { "CustomScoreBook" },
     attrs |->
       << [a |-> "level_list", k |-> "level_list_id", t |-> 2, d |-> [t |-> 2, n |-> 0]] >>],
    [classes |-> { "DeathZone" },
     attrs |->
       << [a |-> "height", k |-> "height", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 0]] >>],
    [classes |-> { "Emitter" },
     attrs |->
       << [a |-> "draw_depth_sub", k |-> "draw_depth_sub", t |-> 3, d |-> [t |-> 3, n |-> 0]],
          [a |-> "e_rotation", k |-> "e_rotation", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "emitter_id", k |-> "emitter_id", t |-> 3, d |-> [t |-> 3, n |-> 0]],
          [a |-> "height", k |-> "height", t |-> 2, d |-> [t |-> 2, n |-> 480]],
          [a |-> "r_area", k |-> "r_area", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "r_rotation", k |-> "r_rotation", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 480]] >>],
    [classes |-> { "EndZone" },
     attrs |->
       << [a |-> "finished", k |-> "finished", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "trigger_areas", k |-> "trigger_area", t |-> 15, d |-> [t |-> 15, et |-> 10, a |-> << >>]] >>],
    [classes |-> { "EnemyKey" },
     attrs |->
       << [a |-> "door", k |-> "door", t |-> 3, d |-> [t |-> 3, n |-> 0]],
          [a |-> "lastX", k |-> "lastKnowX", t |-> 4, d |-> [t |-> 4, i |-> 0, f |-> 0]],
          [a |-> "lastY", k |-> "lastKnowY", t |-> 4, d |-> [t |-> 4, i |-> 0, f |-> 0]],
          [a |-> "scale", k |-> "dm_scale", t |-> 4, d |-> [t |-> 4, i |-> 1, f |-> 0]] >>],
    [classes |-> { "EnemyTrashTire" },
     attrs |->
       << [a |-> "max_fall_speed", k |-> "max_fall_speed", t |-> 4, d |-> [t |-> 4, i |-> 800, f |-> 0]],
          [a |-> "scale", k |-> "dm_scale", t |-> 4, d |-> [t |-> 4, i |-> 1, f |-> 0]] >>],
    [classes |-> { "FogTrigger" },
     attrs |->
       << [a |-> "colours", k |-> "fog_colour", t |-> 15, d |-> [t |-> 15, et |-> 3, a |-> << >>]],
          [a |-> "gradient", k |-> "gradient", t |-> 15, d |-> [t |-> 15, et |-> 3, a |-> << >>]],
          [a |-> "gradient_middle", k |-> "gradient_middle", t |-> 4, d |-> [t |-> 4, i |-> 0, f |-> 0]],
          [a |-> "has_sub_layers", k |-> "has_sub_layers", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "pers", k |-> "fog_per", t |-> 15, d |-> [t |-> 15, et |-> 4, a |-> << >>]],
          [a |-> "speed", k |-> "fog_speed", t |-> 4, d |-> [t |-> 4, i |-> 5, f |-> 0]],
          [a |-> "star_bottom", k |-> "star_bottom", t |-> 4, d |-> [t |-> 4, i |-> 0, f |-> 0]],
          [a |-> "star_middle", k |-> "star_middle", t |-> 4, d |-> [t |-> 4, r |-> "0.4"]],
          [a |-> "star_top", k |-> "star_top", t |-> 4, d |-> [t |-> 4, i |-> 1, f |-> 0]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "LevelDoor" },
     attrs |->
       << [a |-> "door_set", k |-> "door_set", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "file_name", k |-> "file_name", t |-> 5, d |-> [t |-> 5, s |-> <<  >>]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "LevelEnd" },
     attrs |->
       << [a |-> "entities", k |-> "ent_list", t |-> 15, d |-> [t |-> 15, et |-> 3, a |-> << >>]],
          [a |-> "finished", k |-> "finished", t |-> 1, d |-> [t |-> 1, b |-> FALSE]] >>],
    [classes |-> { "MusicTrigger" },
     attrs |->
       << [a |-> "sound_names", k |-> "sound_music_names", t |-> 15, d |-> [t |-> 15, et |-> 5, a |-> << >>]],
          [a |-> "sound_vols", k |-> "sound_music_vol", t |-> 15, d |-> [t |-> 15, et |-> 4, a |-> << >>]],
          [a |-> "speed", k |-> "music_speed", t |-> 4, d |-> [t |-> 4, i |-> 5, f |-> 0]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "RedKeyDoor" },
     attrs |->
       << [a |-> "keys_needed", k |-> "key_needed", t |-> 2, d |-> [t |-> 2, n |-> 1]] >>],
    [classes |-> { "ScoreBook" },
     attrs |->
       << [a |-> "book_type", k |-> "book_type", t |-> 5, d |-> [t |-> 5, s |-> <<  >>]] >>],
    [classes |-> { "SpecialTrigger", "Trigger" },
     attrs |->
       << [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "StringList" },
     attrs |->
       << [a |-> "data", k |-> "list", t |-> 15, d |-> [t |-> 15, et |-> 5, a |-> << >>]],
          [a |-> "width", k |-> "width", t |-> 2, d |-> [t |-> 2, n |-> 500]] >>],
    [classes |-> { "TextTrigger" },
     attrs |->
       << [a |-> "hide", k |-> "hide", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "text", k |-> "text_string", t |-> 5, d |-> [t |-> 5, s |-> <<  >>]] >>],
    [classes |-> { "Level" },
     attrs |->
       << [a |-> "name", k |-> "level_name", t |-> 5, d |-> [t |-> 5, s |-> <<  >>]],
          [a |-> "virtual_character", k |-> "vector_character", t |-> 1, d |-> [t |-> 1, b |-> FALSE]],
          [a |-> "level_type", k |-> "level_type", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "dustmod_version", k |-> "dustmod_version", t |-> 5, d |-> [t |-> 5, s |-> <<  >>]],
          [a |-> "p1.x", k |-> "p1_x", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p1.y", k |-> "p1_y", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p2.x", k |-> "p2_x", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p2.y", k |-> "p2_y", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p3.x", k |-> "p3_x", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p3.y", k |-> "p3_y", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p4.x", k |-> "p4_x", t |-> 2, d |-> [t |-> 2, n |-> 0]],
          [a |-> "p4.y", k |-> "p4_y", t |-> 2, d |-> [t |-> 2, n |-> 0]] >>]
  >>
=============================================================================
