// Script member, field of the host class, and what the member depends on ("" always there, "?" by itself,
// otherwise the member which tells whether the group is there). Names correspond but for case and underscores.
E(IGuildValues, "C_GILVALUES", "WATER_DEPTH_KNEE", water_depth_knee, "")
E(IGuildValues, "C_GILVALUES", "WATER_DEPTH_CHEST", water_depth_chest, "")
E(IGuildValues, "C_GILVALUES", "JUMPUP_HEIGHT", jumpup_height, "")
E(IGuildValues, "C_GILVALUES", "SWIM_TIME", swim_time, "")
E(IGuildValues, "C_GILVALUES", "DIVE_TIME", dive_time, "")
E(IGuildValues, "C_GILVALUES", "STEP_HEIGHT", step_height, "")
E(IGuildValues, "C_GILVALUES", "JUMPLOW_HEIGHT", jumplow_height, "")
E(IGuildValues, "C_GILVALUES", "JUMPMID_HEIGHT", jumpmid_height, "")
E(IGuildValues, "C_GILVALUES", "SLIDE_ANGLE", slide_angle, "")
E(IGuildValues, "C_GILVALUES", "SLIDE_ANGLE2", slide_angle2, "")
E(IGuildValues, "C_GILVALUES", "DISABLE_AUTOROLL", disable_autoroll, "")
E(IGuildValues, "C_GILVALUES", "SURFACE_ALIGN", surface_align, "")
E(IGuildValues, "C_GILVALUES", "CLIMB_HEADING_ANGLE", climb_heading_angle, "")
E(IGuildValues, "C_GILVALUES", "CLIMB_HORIZ_ANGLE", climb_horiz_angle, "")
E(IGuildValues, "C_GILVALUES", "CLIMB_GROUND_ANGLE", climb_ground_angle, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_BASE", fight_range_base, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_FIST", fight_range_fist, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_1HS", fight_range_1hs, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_1HA", fight_range_1ha, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_2HS", fight_range_2hs, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_2HA", fight_range_2ha, "")
E(IGuildValues, "C_GILVALUES", "FALLDOWN_HEIGHT", falldown_height, "")
E(IGuildValues, "C_GILVALUES", "FALLDOWN_DAMAGE", falldown_damage, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_DISABLED", blood_disabled, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_MAX_DISTANCE", blood_max_distance, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_AMOUNT", blood_amount, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_FLOW", blood_flow, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_EMITTER", blood_emitter, "")
E(IGuildValues, "C_GILVALUES", "BLOOD_TEXTURE", blood_texture, "")
E(IGuildValues, "C_GILVALUES", "TURN_SPEED", turn_speed, "")
E(IGuildValues, "C_GILVALUES", "FIGHT_RANGE_G", fight_range_g, "FIGHT_RANGE_G")
E(IFightAi, "C_FIGHTAI", "MOVE", move, "")
E(ISoundEffect, "C_SFX", "FILE", file, "")
E(ISoundEffect, "C_SFX", "PITCHOFF", pitch_off, "")
E(ISoundEffect, "C_SFX", "PITCHVAR", pitch_var, "")
E(ISoundEffect, "C_SFX", "VOL", vol, "")
E(ISoundEffect, "C_SFX", "LOOP", loop, "")
E(ISoundEffect, "C_SFX", "LOOPSTARTOFFSET", loop_start_offset, "")
E(ISoundEffect, "C_SFX", "LOOPENDOFFSET", loop_end_offset, "")
E(ISoundEffect, "C_SFX", "REVERBLEVEL", reverb_level, "")
E(ISoundEffect, "C_SFX", "PFXNAME", pfx_name, "")
E(ISoundSystem, "C_SNDSYS_CFG", "VOLUME", volume, "")
E(ISoundSystem, "C_SNDSYS_CFG", "BITRESOLUTION", bit_resolution, "")
E(ISoundSystem, "C_SNDSYS_CFG", "SAMPLERATE", sample_rate, "")
E(ISoundSystem, "C_SNDSYS_CFG", "USESTEREO", use_stereo, "")
E(ISoundSystem, "C_SNDSYS_CFG", "NUMSFXCHANNELS", num_sfx_channels, "")
E(ISoundSystem, "C_SNDSYS_CFG", "USED3DPROVIDERNAME", used_3d_provider_name, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "VISNAME_S", vis_name_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "VISSIZESCALE", vis_size_scale, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "SCALEDURATION", scale_duration, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_PPSVALUE", pfx_pps_value, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_PPSISSMOOTHCHG", pfx_pps_is_smooth_chg, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_PPSISLOOPINGCHG", pfx_pps_is_looping_chg, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SCTIME", pfx_sc_time, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_FLYGRAVITY_S", pfx_fly_gravity_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPDIM_S", pfx_shp_dim_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPISVOLUMECHG", pfx_shp_is_volume_chg, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPSCALEFPS", pfx_shp_scale_fps, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPDISTRIBWALKSPEED", pfx_shp_distrib_walks_peed, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPOFFSETVEC_S", pfx_shp_offset_vec_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_SHPDISTRIBTYPE_S", pfx_shp_distrib_type_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_DIRMODE_S", pfx_dir_mode_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_DIRFOR_S", pfx_dir_for_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_DIRMODETARGETFOR_S", pfx_dir_mode_target_for_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_DIRMODETARGETPOS_S", pfx_dir_mode_target_pos_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_VELAVG", pfx_vel_avg, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_LSPPARTAVG", pfx_lsp_part_avg, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "PFX_VISALPHASTART", pfx_vis_alpha_start, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "LIGHTPRESETNAME", light_preset_name, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "LIGHTRANGE", light_range, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "SFXID", sfx_id, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "SFXISAMBIENT", sfx_is_ambient, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMCREATEFXID", em_create_fx_id, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMFLYGRAVITY", em_fly_gravity, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMSELFROTVEL_S", em_self_rot_vel_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMTRJMODE_S", em_trj_mode_s, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMTRJEASEVEL", em_trj_ease_vel, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMCHECKCOLLISION", em_check_collision, "")
E(IParticleEffectEmitKey, "C_PARTICLEFXEMITKEY", "EMFXLIFESPAN", em_fx_lifespan, "")
E(INpc, "C_NPC", "ID", id, "")
E(INpc, "C_NPC", "NAME", name, "")
E(INpc, "C_NPC", "SLOT", slot, "")
E(INpc, "C_NPC", "NPCTYPE", type, "")
E(INpc, "C_NPC", "FLAGS", flags, "")
E(INpc, "C_NPC", "ATTRIBUTE", attribute, "")
E(INpc, "C_NPC", "PROTECTION", protection, "")
E(INpc, "C_NPC", "DAMAGE", damage, "")
E(INpc, "C_NPC", "DAMAGETYPE", damage_type, "")
E(INpc, "C_NPC", "GUILD", guild, "")
E(INpc, "C_NPC", "LEVEL", level, "")
E(INpc, "C_NPC", "MISSION", mission, "")
E(INpc, "C_NPC", "FIGHT_TACTIC", fight_tactic, "")
E(INpc, "C_NPC", "WEAPON", weapon, "")
E(INpc, "C_NPC", "VOICE", voice, "")
E(INpc, "C_NPC", "VOICEPITCH", voice_pitch, "")
E(INpc, "C_NPC", "BODYMASS", body_mass, "")
E(INpc, "C_NPC", "DAILY_ROUTINE", daily_routine, "")
E(INpc, "C_NPC", "START_AISTATE", start_aistate, "")
E(INpc, "C_NPC", "SPAWNPOINT", spawnpoint, "")
E(INpc, "C_NPC", "SPAWNDELAY", spawn_delay, "")
E(INpc, "C_NPC", "SENSES", senses, "")
E(INpc, "C_NPC", "SENSES_RANGE", senses_range, "")
E(INpc, "C_NPC", "AIVAR", aivar, "")
E(INpc, "C_NPC", "WP", wp, "")
E(INpc, "C_NPC", "EXP", exp, "")
E(INpc, "C_NPC", "EXP_NEXT", exp_next, "")
E(INpc, "C_NPC", "LP", lp, "")
E(INpc, "C_NPC", "HITCHANCE", hitchance, "HITCHANCE")
E(INpc, "C_NPC", "BODYSTATEINTERRUPTABLEOVERRIDE", bodystate_interruptable_override, "HITCHANCE")
E(INpc, "C_NPC", "NOFOCUS", no_focus, "HITCHANCE")
E(INpc, "C_NPC", "EFFECT", effect, "EFFECT")
E(IMission, "C_MISSION", "NAME", name, "")
E(IMission, "C_MISSION", "DESCRIPTION", description, "")
E(IMission, "C_MISSION", "DURATION", duration, "")
E(IMission, "C_MISSION", "IMPORTANT", important, "")
E(IMission, "C_MISSION", "OFFERCONDITIONS", offer_conditions, "")
E(IMission, "C_MISSION", "OFFER", offer, "")
E(IMission, "C_MISSION", "SUCCESSCONDITIONS", success_conditions, "")
E(IMission, "C_MISSION", "SUCCESS", success, "")
E(IMission, "C_MISSION", "FAILURECONDITIONS", failure_conditions, "")
E(IMission, "C_MISSION", "FAILURE", failure, "")
E(IMission, "C_MISSION", "OBSOLETECONDITIONS", obsolete_conditions, "")
E(IMission, "C_MISSION", "OBSOLETE", obsolete, "")
E(IMission, "C_MISSION", "RUNNING", running, "")
E(IItem, "C_ITEM", "ID", id, "")
E(IItem, "C_ITEM", "NAME", name, "")
E(IItem, "C_ITEM", "NAMEID", name_id, "")
E(IItem, "C_ITEM", "HP", hp, "")
E(IItem, "C_ITEM", "HP_MAX", hp_max, "")
E(IItem, "C_ITEM", "MAINFLAG", main_flag, "")
E(IItem, "C_ITEM", "FLAGS", flags, "")
E(IItem, "C_ITEM", "WEIGHT", weight, "")
E(IItem, "C_ITEM", "VALUE", value, "")
E(IItem, "C_ITEM", "DAMAGETYPE", damage_type, "")
E(IItem, "C_ITEM", "DAMAGETOTAL", damage_total, "")
E(IItem, "C_ITEM", "DAMAGE", damage, "")
E(IItem, "C_ITEM", "WEAR", wear, "")
E(IItem, "C_ITEM", "PROTECTION", protection, "")
E(IItem, "C_ITEM", "NUTRITION", nutrition, "")
E(IItem, "C_ITEM", "COND_ATR", cond_atr, "")
E(IItem, "C_ITEM", "COND_VALUE", cond_value, "")
E(IItem, "C_ITEM", "CHANGE_ATR", change_atr, "")
E(IItem, "C_ITEM", "CHANGE_VALUE", change_value, "")
E(IItem, "C_ITEM", "MAGIC", magic, "")
E(IItem, "C_ITEM", "ON_EQUIP", on_equip, "")
E(IItem, "C_ITEM", "ON_UNEQUIP", on_unequip, "")
E(IItem, "C_ITEM", "ON_STATE", on_state, "")
E(IItem, "C_ITEM", "OWNER", owner, "")
E(IItem, "C_ITEM", "OWNERGUILD", owner_guild, "")
E(IItem, "C_ITEM", "DISGUISEGUILD", disguise_guild, "")
E(IItem, "C_ITEM", "VISUAL", visual, "")
E(IItem, "C_ITEM", "VISUAL_CHANGE", visual_change, "")
E(IItem, "C_ITEM", "VISUAL_SKIN", visual_skin, "")
E(IItem, "C_ITEM", "SCEMENAME", scheme_name, "")
E(IItem, "C_ITEM", "MATERIAL", material, "")
E(IItem, "C_ITEM", "MUNITION", munition, "")
E(IItem, "C_ITEM", "SPELL", spell, "")
E(IItem, "C_ITEM", "RANGE", range, "")
E(IItem, "C_ITEM", "MAG_CIRCLE", mag_circle, "")
E(IItem, "C_ITEM", "DESCRIPTION", description, "")
E(IItem, "C_ITEM", "TEXT", text, "")
E(IItem, "C_ITEM", "COUNT", count, "")
E(IItem, "C_ITEM", "INV_ZBIAS", inv_zbias, "INV_ZBIAS")
E(IItem, "C_ITEM", "INV_ROTX", inv_rot_x, "INV_ZBIAS")
E(IItem, "C_ITEM", "INV_ROTY", inv_rot_y, "INV_ZBIAS")
E(IItem, "C_ITEM", "INV_ROTZ", inv_rot_z, "INV_ZBIAS")
E(IItem, "C_ITEM", "INV_ANIMATE", inv_animate, "INV_ZBIAS")
E(IItem, "C_ITEM", "EFFECT", effect, "EFFECT")
E(IFocus, "C_FOCUS", "NPC_LONGRANGE", npc_longrange, "")
E(IFocus, "C_FOCUS", "NPC_RANGE1", npc_range1, "")
E(IFocus, "C_FOCUS", "NPC_RANGE2", npc_range2, "")
E(IFocus, "C_FOCUS", "NPC_AZI", npc_azi, "")
E(IFocus, "C_FOCUS", "NPC_ELEVDO", npc_elevdo, "")
E(IFocus, "C_FOCUS", "NPC_ELEVUP", npc_elevup, "")
E(IFocus, "C_FOCUS", "NPC_PRIO", npc_prio, "")
E(IFocus, "C_FOCUS", "ITEM_RANGE1", item_range1, "")
E(IFocus, "C_FOCUS", "ITEM_RANGE2", item_range2, "")
E(IFocus, "C_FOCUS", "ITEM_AZI", item_azi, "")
E(IFocus, "C_FOCUS", "ITEM_ELEVDO", item_elevdo, "")
E(IFocus, "C_FOCUS", "ITEM_ELEVUP", item_elevup, "")
E(IFocus, "C_FOCUS", "ITEM_PRIO", item_prio, "")
E(IFocus, "C_FOCUS", "MOB_RANGE1", mob_range1, "")
E(IFocus, "C_FOCUS", "MOB_RANGE2", mob_range2, "")
E(IFocus, "C_FOCUS", "MOB_AZI", mob_azi, "")
E(IFocus, "C_FOCUS", "MOB_ELEVDO", mob_elevdo, "")
E(IFocus, "C_FOCUS", "MOB_ELEVUP", mob_elevup, "")
E(IFocus, "C_FOCUS", "MOB_PRIO", mob_prio, "")
E(IInfo, "C_INFO", "NPC", npc, "")
E(IInfo, "C_INFO", "NR", nr, "")
E(IInfo, "C_INFO", "IMPORTANT", important, "")
E(IInfo, "C_INFO", "CONDITION", condition, "")
E(IInfo, "C_INFO", "INFORMATION", information, "")
E(IInfo, "C_INFO", "DESCRIPTION", description, "")
E(IInfo, "C_INFO", "TRADE", trade, "")
E(IInfo, "C_INFO", "PERMANENT", permanent, "")
E(IItemReact, "C_ITEMREACT", "NPC", npc, "")
E(IItemReact, "C_ITEMREACT", "TRADE_ITEM", trade_item, "")
E(IItemReact, "C_ITEMREACT", "TRADE_AMOUNT", trade_amount, "")
E(IItemReact, "C_ITEMREACT", "REQUESTED_CAT", requested_cat, "")
E(IItemReact, "C_ITEMREACT", "REQUESTED_ITEM", requested_item, "")
E(IItemReact, "C_ITEMREACT", "REQUESTED_AMOUNT", requested_amount, "")
E(IItemReact, "C_ITEMREACT", "REACTION", reaction, "")
E(ISpell, "C_SPELL", "TIME_PER_MANA", time_per_mana, "")
E(ISpell, "C_SPELL", "DAMAGE_PER_LEVEL", damage_per_level, "")
E(ISpell, "C_SPELL", "DAMAGETYPE", damage_type, "")
E(ISpell, "C_SPELL", "SPELLTYPE", spell_type, "")
E(ISpell, "C_SPELL", "CANTURNDURINGINVEST", can_turn_during_invest, "")
E(ISpell, "C_SPELL", "CANCHANGETARGETDURINGINVEST", can_change_target_during_invest, "")
E(ISpell, "C_SPELL", "ISMULTIEFFECT", is_multi_effect, "")
E(ISpell, "C_SPELL", "TARGETCOLLECTALGO", target_collect_algo, "")
E(ISpell, "C_SPELL", "TARGETCOLLECTTYPE", target_collect_type, "")
E(ISpell, "C_SPELL", "TARGETCOLLECTRANGE", target_collect_range, "")
E(ISpell, "C_SPELL", "TARGETCOLLECTAZI", target_collect_azi, "")
E(ISpell, "C_SPELL", "TARGETCOLLECTELEV", target_collect_elev, "")
E(ISvm, "C_SVM", "MILGREETINGS", mil_greetings, "?")
E(ISvm, "C_SVM", "PALGREETINGS", pal_greetings, "?")
E(ISvm, "C_SVM", "WEATHER", weather, "?")
E(ISvm, "C_SVM", "IGETYOUSTILL", iget_you_still, "?")
E(ISvm, "C_SVM", "DIEENEMY", die_enemy, "?")
E(ISvm, "C_SVM", "DIEMONSTER", die_monster, "?")
E(ISvm, "C_SVM", "ADDON_DIEMONSTER", addon_die_monster, "?")
E(ISvm, "C_SVM", "ADDON_DIEMONSTER2", addon_die_monster_2, "?")
E(ISvm, "C_SVM", "DIRTYTHIEF", dirty_thief, "?")
E(ISvm, "C_SVM", "HANDSOFF", hands_off, "?")
E(ISvm, "C_SVM", "SHEEPKILLER", sheep_killer, "?")
E(ISvm, "C_SVM", "SHEEPKILLERMONSTER", sheep_killer_monster, "?")
E(ISvm, "C_SVM", "YOUMURDERER", you_murderer, "?")
E(ISvm, "C_SVM", "DIESTUPIDBEAST", die_stupid_beast, "?")
E(ISvm, "C_SVM", "YOUDAREHITME", you_dare_hit_me, "?")
E(ISvm, "C_SVM", "YOUASKEDFORIT", you_asked_for_it, "?")
E(ISvm, "C_SVM", "THENIBEATYOUOUTOFHERE", then_ibeat_you_out_of_here, "?")
E(ISvm, "C_SVM", "WHATDIDYOUDOINTHERE", what_did_you_do_in_there, "?")
E(ISvm, "C_SVM", "WILLYOUSTOPFIGHTING", will_you_stop_fighting, "?")
E(ISvm, "C_SVM", "KILLENEMY", kill_enemy, "?")
E(ISvm, "C_SVM", "ENEMYKILLED", enemy_killed, "?")
E(ISvm, "C_SVM", "MONSTERKILLED", monster_killed, "?")
E(ISvm, "C_SVM", "ADDON_MONSTERKILLED", addon_monster_killed, "?")
E(ISvm, "C_SVM", "ADDON_MONSTERKILLED2", addon_monster_killed_2, "?")
E(ISvm, "C_SVM", "THIEFDOWN", thief_down, "?")
E(ISvm, "C_SVM", "RUMFUMMLERDOWN", rumfummler_down, "?")
E(ISvm, "C_SVM", "SHEEPATTACKERDOWN", sheep_attacker_down, "?")
E(ISvm, "C_SVM", "KILLMURDERER", kill_murderer, "?")
E(ISvm, "C_SVM", "STUPIDBEASTKILLED", stupid_beast_killed, "?")
E(ISvm, "C_SVM", "NEVERHITMEAGAIN", never_hit_me_again, "?")
E(ISvm, "C_SVM", "YOUBETTERSHOULDHAVELISTENED", you_better_should_have_listened, "?")
E(ISvm, "C_SVM", "GETUPANDBEGONE", get_up_and_begone, "?")
E(ISvm, "C_SVM", "NEVERENTERROOMAGAIN", never_enter_room_again, "?")
E(ISvm, "C_SVM", "THEREISNOFIGHTINGHERE", there_is_no_fighting_here, "?")
E(ISvm, "C_SVM", "SPAREME", spare_me, "?")
E(ISvm, "C_SVM", "RUNAWAY", run_away, "?")
E(ISvm, "C_SVM", "ALARM", alarm, "?")
E(ISvm, "C_SVM", "GUARDS", guards, "?")
E(ISvm, "C_SVM", "HELP", help, "?")
E(ISvm, "C_SVM", "GOODMONSTERKILL", good_monster_kill, "?")
E(ISvm, "C_SVM", "GOODKILL", good_kill, "?")
E(ISvm, "C_SVM", "NOTNOW", not_now, "?")
E(ISvm, "C_SVM", "RUNCOWARD", run_coward, "?")
E(ISvm, "C_SVM", "GETOUTOFHERE", get_out_of_here, "?")
E(ISvm, "C_SVM", "WHYAREYOUINHERE", why_are_you_in_here, "?")
E(ISvm, "C_SVM", "YESGOOUTOFHERE", yes_go_out_of_here, "?")
E(ISvm, "C_SVM", "WHATSTHISSUPPOSEDTOBE", whats_this_supposed_to_be, "?")
E(ISvm, "C_SVM", "YOUDISTURBEDMYSLUMBER", you_disturbed_my_slumber, "?")
E(ISvm, "C_SVM", "ITOOKYOURGOLD", itook_your_gold, "?")
E(ISvm, "C_SVM", "SHITNOGOLD", shit_no_gold, "?")
E(ISvm, "C_SVM", "ITAKEYOURWEAPON", itake_your_weapon, "?")
E(ISvm, "C_SVM", "WHATAREYOUDOING", what_are_you_doing, "?")
E(ISvm, "C_SVM", "LOOKINGFORTROUBLEAGAIN", looking_for_trouble_again, "?")
E(ISvm, "C_SVM", "STOPMAGIC", stop_magic, "?")
E(ISvm, "C_SVM", "ISAIDSTOPMAGIC", isaid_stop_magic, "?")
E(ISvm, "C_SVM", "WEAPONDOWN", weapon_down, "?")
E(ISvm, "C_SVM", "ISAIDWEAPONDOWN", isaid_weapon_down, "?")
E(ISvm, "C_SVM", "WISEMOVE", wise_move, "?")
E(ISvm, "C_SVM", "NEXTTIMEYOUREINFORIT", next_time_youre_in_for_it, "?")
E(ISvm, "C_SVM", "OHMYHEAD", oh_my_head, "?")
E(ISvm, "C_SVM", "THERESAFIGHT", theres_afight, "?")
E(ISvm, "C_SVM", "OHMYGODITSAFIGHT", oh_my_god_its_afight, "?")
E(ISvm, "C_SVM", "GOODVICTORY", good_victory, "?")
E(ISvm, "C_SVM", "NOTBAD", not_bad, "?")
E(ISvm, "C_SVM", "OHMYGODHESDOWN", oh_my_god_hes_down, "?")
E(ISvm, "C_SVM", "CHEERFRIEND01", cheer_friend_01, "?")
E(ISvm, "C_SVM", "CHEERFRIEND02", cheer_friend_02, "?")
E(ISvm, "C_SVM", "CHEERFRIEND03", cheer_friend_03, "?")
E(ISvm, "C_SVM", "OOH01", ooh_01, "?")
E(ISvm, "C_SVM", "OOH02", ooh_02, "?")
E(ISvm, "C_SVM", "OOH03", ooh_03, "?")
E(ISvm, "C_SVM", "WHATWASTHAT", what_was_that, "?")
E(ISvm, "C_SVM", "GETOUTOFMYBED", get_out_of_my_bed, "?")
E(ISvm, "C_SVM", "AWAKE", awake, "?")
E(ISvm, "C_SVM", "ABS_COMMANDER", abs_commander, "?")
E(ISvm, "C_SVM", "ABS_MONASTERY", abs_monastery, "?")
E(ISvm, "C_SVM", "ABS_FARM", abs_farm, "?")
E(ISvm, "C_SVM", "ABS_GOOD", abs_good, "?")
E(ISvm, "C_SVM", "SHEEPKILLER_CRIME", sheep_killer_crime, "?")
E(ISvm, "C_SVM", "ATTACK_CRIME", attack_crime, "?")
E(ISvm, "C_SVM", "THEFT_CRIME", theft_crime, "?")
E(ISvm, "C_SVM", "MURDER_CRIME", murder_crime, "?")
E(ISvm, "C_SVM", "PAL_CITY_CRIME", pal_city_crime, "?")
E(ISvm, "C_SVM", "MIL_CITY_CRIME", mil_city_crime, "?")
E(ISvm, "C_SVM", "CITY_CRIME", city_crime, "?")
E(ISvm, "C_SVM", "MONA_CRIME", mona_crime, "?")
E(ISvm, "C_SVM", "FARM_CRIME", farm_crime, "?")
E(ISvm, "C_SVM", "OC_CRIME", oc_crime, "?")
E(ISvm, "C_SVM", "TOUGHGUY_ATTACKLOST", toughguy_attack_lost, "?")
E(ISvm, "C_SVM", "TOUGHGUY_ATTACKWON", toughguy_attack_won, "?")
E(ISvm, "C_SVM", "TOUGHGUY_PLAYERATTACK", toughguy_player_attack, "?")
E(ISvm, "C_SVM", "GOLD_1000", gold_1000, "?")
E(ISvm, "C_SVM", "GOLD_950", gold_950, "?")
E(ISvm, "C_SVM", "GOLD_900", gold_900, "?")
E(ISvm, "C_SVM", "GOLD_850", gold_850, "?")
E(ISvm, "C_SVM", "GOLD_800", gold_800, "?")
E(ISvm, "C_SVM", "GOLD_750", gold_750, "?")
E(ISvm, "C_SVM", "GOLD_700", gold_700, "?")
E(ISvm, "C_SVM", "GOLD_650", gold_650, "?")
E(ISvm, "C_SVM", "GOLD_600", gold_600, "?")
E(ISvm, "C_SVM", "GOLD_550", gold_550, "?")
E(ISvm, "C_SVM", "GOLD_500", gold_500, "?")
E(ISvm, "C_SVM", "GOLD_450", gold_450, "?")
E(ISvm, "C_SVM", "GOLD_400", gold_400, "?")
E(ISvm, "C_SVM", "GOLD_350", gold_350, "?")
E(ISvm, "C_SVM", "GOLD_300", gold_300, "?")
E(ISvm, "C_SVM", "GOLD_250", gold_250, "?")
E(ISvm, "C_SVM", "GOLD_200", gold_200, "?")
E(ISvm, "C_SVM", "GOLD_150", gold_150, "?")
E(ISvm, "C_SVM", "GOLD_100", gold_100, "?")
E(ISvm, "C_SVM", "GOLD_90", gold_90, "?")
E(ISvm, "C_SVM", "GOLD_80", gold_80, "?")
E(ISvm, "C_SVM", "GOLD_70", gold_70, "?")
E(ISvm, "C_SVM", "GOLD_60", gold_60, "?")
E(ISvm, "C_SVM", "GOLD_50", gold_50, "?")
E(ISvm, "C_SVM", "GOLD_40", gold_40, "?")
E(ISvm, "C_SVM", "GOLD_30", gold_30, "?")
E(ISvm, "C_SVM", "GOLD_20", gold_20, "?")
E(ISvm, "C_SVM", "GOLD_10", gold_10, "?")
E(ISvm, "C_SVM", "SMALLTALK01", smalltalk_01, "?")
E(ISvm, "C_SVM", "SMALLTALK02", smalltalk_02, "?")
E(ISvm, "C_SVM", "SMALLTALK03", smalltalk_03, "?")
E(ISvm, "C_SVM", "SMALLTALK04", smalltalk_04, "?")
E(ISvm, "C_SVM", "SMALLTALK05", smalltalk_05, "?")
E(ISvm, "C_SVM", "SMALLTALK06", smalltalk_06, "?")
E(ISvm, "C_SVM", "SMALLTALK07", smalltalk_07, "?")
E(ISvm, "C_SVM", "SMALLTALK08", smalltalk_08, "?")
E(ISvm, "C_SVM", "SMALLTALK09", smalltalk_09, "?")
E(ISvm, "C_SVM", "SMALLTALK10", smalltalk_10, "?")
E(ISvm, "C_SVM", "SMALLTALK11", smalltalk_11, "?")
E(ISvm, "C_SVM", "SMALLTALK12", smalltalk_12, "?")
E(ISvm, "C_SVM", "SMALLTALK13", smalltalk_13, "?")
E(ISvm, "C_SVM", "SMALLTALK14", smalltalk_14, "?")
E(ISvm, "C_SVM", "SMALLTALK15", smalltalk_15, "?")
E(ISvm, "C_SVM", "SMALLTALK16", smalltalk_16, "?")
E(ISvm, "C_SVM", "SMALLTALK17", smalltalk_17, "?")
E(ISvm, "C_SVM", "SMALLTALK18", smalltalk_18, "?")
E(ISvm, "C_SVM", "SMALLTALK19", smalltalk_19, "?")
E(ISvm, "C_SVM", "SMALLTALK20", smalltalk_20, "?")
E(ISvm, "C_SVM", "SMALLTALK21", smalltalk_21, "?")
E(ISvm, "C_SVM", "SMALLTALK22", smalltalk_22, "?")
E(ISvm, "C_SVM", "SMALLTALK23", smalltalk_23, "?")
E(ISvm, "C_SVM", "SMALLTALK24", smalltalk_24, "?")
E(ISvm, "C_SVM", "SMALLTALK25", smalltalk_25, "?")
E(ISvm, "C_SVM", "SMALLTALK26", smalltalk_26, "?")
E(ISvm, "C_SVM", "SMALLTALK27", smalltalk_27, "?")
E(ISvm, "C_SVM", "SMALLTALK28", smalltalk_28, "?")
E(ISvm, "C_SVM", "SMALLTALK29", smalltalk_29, "?")
E(ISvm, "C_SVM", "SMALLTALK30", smalltalk_30, "?")
E(ISvm, "C_SVM", "NOLEARNNOPOINTS", no_learn_no_points, "?")
E(ISvm, "C_SVM", "NOLEARNOVERPERSONALMAX", no_learn_over_personal_max, "?")
E(ISvm, "C_SVM", "NOLEARNYOUREBETTER", no_learn_youre_better, "?")
E(ISvm, "C_SVM", "YOULEARNEDSOMETHING", you_learned_something, "?")
E(ISvm, "C_SVM", "UNTERSTADT", unterstadt, "?")
E(ISvm, "C_SVM", "OBERSTADT", oberstadt, "?")
E(ISvm, "C_SVM", "TEMPEL", tempel, "?")
E(ISvm, "C_SVM", "MARKT", markt, "?")
E(ISvm, "C_SVM", "GALGEN", galgen, "?")
E(ISvm, "C_SVM", "KASERNE", kaserne, "?")
E(ISvm, "C_SVM", "HAFEN", hafen, "?")
E(ISvm, "C_SVM", "WHERETO", whereto, "?")
E(ISvm, "C_SVM", "OBERSTADT_2_UNTERSTADT", oberstadt_2_unterstadt, "?")
E(ISvm, "C_SVM", "UNTERSTADT_2_OBERSTADT", unterstadt_2_oberstadt, "?")
E(ISvm, "C_SVM", "UNTERSTADT_2_TEMPEL", unterstadt_2_tempel, "?")
E(ISvm, "C_SVM", "UNTERSTADT_2_HAFEN", unterstadt_2_hafen, "?")
E(ISvm, "C_SVM", "TEMPEL_2_UNTERSTADT", tempel_2_unterstadt, "?")
E(ISvm, "C_SVM", "TEMPEL_2_MARKT", tempel_2_markt, "?")
E(ISvm, "C_SVM", "TEMPEL_2_GALGEN", tempel_2_galgen, "?")
E(ISvm, "C_SVM", "MARKT_2_TEMPEL", markt_2_tempel, "?")
E(ISvm, "C_SVM", "MARKT_2_KASERNE", markt_2_kaserne, "?")
E(ISvm, "C_SVM", "MARKT_2_GALGEN", markt_2_galgen, "?")
E(ISvm, "C_SVM", "GALGEN_2_TEMPEL", galgen_2_tempel, "?")
E(ISvm, "C_SVM", "GALGEN_2_MARKT", galgen_2_markt, "?")
E(ISvm, "C_SVM", "GALGEN_2_KASERNE", galgen_2_kaserne, "?")
E(ISvm, "C_SVM", "KASERNE_2_MARKT", kaserne_2_markt, "?")
E(ISvm, "C_SVM", "KASERNE_2_GALGEN", kaserne_2_galgen, "?")
E(ISvm, "C_SVM", "HAFEN_2_UNTERSTADT", hafen_2_unterstadt, "?")
E(ISvm, "C_SVM", "DEAD", dead, "?")
E(ISvm, "C_SVM", "AARGH_1", aargh_1, "?")
E(ISvm, "C_SVM", "AARGH_2", aargh_2, "?")
E(ISvm, "C_SVM", "AARGH_3", aargh_3, "?")
E(ISvm, "C_SVM", "ADDON_WRONGARMOR", addon_wrong_armor, "?")
E(ISvm, "C_SVM", "ADDON_WRONGARMOR_SLD", addon_wrong_armor_sld, "?")
E(ISvm, "C_SVM", "ADDON_WRONGARMOR_MIL", addon_wrong_armor_mil, "?")
E(ISvm, "C_SVM", "ADDON_WRONGARMOR_KDF", addon_wrong_armor_kdf, "?")
E(ISvm, "C_SVM", "ADDON_NOARMOR_BDT", addon_no_armor_bdt, "?")
E(ISvm, "C_SVM", "ADDON_DIEBANDIT", addon_die_bandit, "?")
E(ISvm, "C_SVM", "ADDON_DIRTYPIRATE", addon_dirty_pirate, "?")
E(ISvm, "C_SVM", "SC_HEYTURNAROUND", sc_hey_turn_around, "?")
E(ISvm, "C_SVM", "SC_HEYTURNAROUND02", sc_hey_turn_around_02, "?")
E(ISvm, "C_SVM", "SC_HEYTURNAROUND03", sc_hey_turn_around_03, "?")
E(ISvm, "C_SVM", "SC_HEYTURNAROUND04", sc_hey_turn_around_04, "?")
E(ISvm, "C_SVM", "SC_HEYWAITASECOND", sc_hey_wait_asecond, "?")
E(ISvm, "C_SVM", "DOESNTWORK", doesnt_mork, "?")
E(ISvm, "C_SVM", "PICKBROKE", pick_broke, "?")
E(ISvm, "C_SVM", "NEEDKEY", need_key, "?")
E(ISvm, "C_SVM", "NOMOREPICKS", no_more_picks, "?")
E(ISvm, "C_SVM", "NOPICKLOCKTALENT", no_pick_lock_talent, "?")
E(ISvm, "C_SVM", "NOSWEEPING", no_sweeping, "?")
E(ISvm, "C_SVM", "PICKLOCKORKEYMISSING", pick_lock_or_key_missing, "?")
E(ISvm, "C_SVM", "KEYMISSING", key_missing, "?")
E(ISvm, "C_SVM", "PICKLOCKMISSING", pick_lock_missing, "?")
E(ISvm, "C_SVM", "NEVEROPEN", never_open, "?")
E(ISvm, "C_SVM", "MISSINGITEM", missing_item, "?")
E(ISvm, "C_SVM", "DONTKNOW", dont_know, "?")
E(ISvm, "C_SVM", "NOTHINGTOGET", nothing_to_get, "?")
E(ISvm, "C_SVM", "NOTHINGTOGET02", nothing_to_get_02, "?")
E(ISvm, "C_SVM", "NOTHINGTOGET03", nothing_to_get_03, "?")
E(ISvm, "C_SVM", "HEALSHRINE", heal_shrine, "?")
E(ISvm, "C_SVM", "HEALLASTSHRINE", heal_last_shrine, "?")
E(ISvm, "C_SVM", "IRDORATHTHEREYOUARE", irdorath_there_you_are, "?")
E(ISvm, "C_SVM", "SCOPENSIRDORATHBOOK", sc_opens_irdorath_book, "?")
E(ISvm, "C_SVM", "SCOPENSLASTDOOR", sc_opens_last_door, "?")
E(ISvm, "C_SVM", "TRADE_1", trade_1, "?")
E(ISvm, "C_SVM", "TRADE_2", trade_2, "?")
E(ISvm, "C_SVM", "TRADE_3", trade_3, "?")
E(ISvm, "C_SVM", "VERSTEHE", verstehe, "?")
E(ISvm, "C_SVM", "FOUNDTREASURE", found_treasure, "?")
E(ISvm, "C_SVM", "CANTUNDERSTANDTHIS", cant_understand_this, "?")
E(ISvm, "C_SVM", "CANTREADTHIS", cant_read_this, "?")
E(ISvm, "C_SVM", "STONEPLATE_1", stoneplate_1, "?")
E(ISvm, "C_SVM", "STONEPLATE_2", stoneplate_2, "?")
E(ISvm, "C_SVM", "STONEPLATE_3", stoneplate_3, "?")
E(ISvm, "C_SVM", "COUGH", cough, "?")
E(ISvm, "C_SVM", "HUI", hui, "?")
E(ISvm, "C_SVM", "ADDON_THISLITTLEBASTARD", addon_this_little_bastard, "?")
E(ISvm, "C_SVM", "ADDON_OPENADANOSTEMPLE", addon_open_adanos_temple, "?")
E(ISvm, "C_SVM", "ATTENTAT_ADDON_DESCRIPTION", attentat_addon_description, "?")
E(ISvm, "C_SVM", "ATTENTAT_ADDON_DESCRIPTION2", attentat_addon_description_2, "?")
E(ISvm, "C_SVM", "ATTENTAT_ADDON_PRO", attentat_addon_pro, "?")
E(ISvm, "C_SVM", "ATTENTAT_ADDON_CONTRA", attentat_addon_contra, "?")
E(ISvm, "C_SVM", "MINE_ADDON_DESCRIPTION", mine_addon_description, "?")
E(ISvm, "C_SVM", "ADDON_SUMMONANCIENTGHOST", addon_summon_ancient_ghost, "?")
E(ISvm, "C_SVM", "ADDON_ANCIENTGHOST_NOTNEAR", addon_ancient_ghost_not_near, "?")
E(ISvm, "C_SVM", "ADDON_GOLD_DESCRIPTION", addon_gold_description, "?")
E(ISvm, "C_SVM", "WATCHYOURAIM", watch_your_aim, "?")
E(ISvm, "C_SVM", "WATCHYOURAIMANGRY", watch_your_aim_angry, "?")
E(ISvm, "C_SVM", "LETSFORGETOURLITTLEFIGHT", lets_forget_our_little_fight, "?")
E(ISvm, "C_SVM", "STRANGE", strange, "?")
E(ISvm, "C_SVM", "DIEMORTALENEMY", die_mortal_enemy, "?")
E(ISvm, "C_SVM", "NOWWAIT", now_wait, "?")
E(ISvm, "C_SVM", "NOWWAITINTRUDER", now_wait_intruder, "?")
E(ISvm, "C_SVM", "YOUSTILLNOTHAVEENOUGH", you_still_not_have_enough, "?")
E(ISvm, "C_SVM", "YOUATTACKEDMYCHARGE", you_attacked_my_charge, "?")
E(ISvm, "C_SVM", "IWILLTEACHYOURESPECTFORFOREIGNPROPERTY", iwill_teach_you_respect_for_foreign_property, "?")
E(ISvm, "C_SVM", "YOUKILLEDONEOFUS", you_killed_one_of_us, "?")
E(ISvm, "C_SVM", "BERZERK", berzerk, "?")
E(ISvm, "C_SVM", "YOULLBESORRYFORTHIS", youll_be_sorry_for_this, "?")
E(ISvm, "C_SVM", "YESYES", yes_yes, "?")
E(ISvm, "C_SVM", "SHITWHATAMONSTER", shit_what_amonster, "?")
E(ISvm, "C_SVM", "WEWILLMEETAGAIN", we_will_meet_again, "?")
E(ISvm, "C_SVM", "NEVERTRYTHATAGAIN", never_try_that_again, "?")
E(ISvm, "C_SVM", "ITOOKYOURORE", itook_your_ore, "?")
E(ISvm, "C_SVM", "SHITNOORE", shit_no_ore, "?")
E(ISvm, "C_SVM", "YOUVIOLATEDFORBIDDENTERRITORY", you_violated_forbidden_territory, "?")
E(ISvm, "C_SVM", "YOUWANNAFOOLME", you_wanna_fool_me, "?")
E(ISvm, "C_SVM", "WHATDIDYOUINTHERE", what_did_you_in_there, "?")
E(ISvm, "C_SVM", "INTRUDERALERT", intruder_alert, "?")
E(ISvm, "C_SVM", "BEHINDYOU", behind_you, "?")
E(ISvm, "C_SVM", "HEYHEYHEY", hey_hey_hey, "?")
E(ISvm, "C_SVM", "CHEERFIGHT", cheer_fight, "?")
E(ISvm, "C_SVM", "CHEERFRIEND", cheer_friend, "?")
E(ISvm, "C_SVM", "OOH", ooh, "?")
E(ISvm, "C_SVM", "YEAHWELLDONE", yeah_well_done, "?")
E(ISvm, "C_SVM", "HEDEFEATEDHIM", he_defeatedhim, "?")
E(ISvm, "C_SVM", "HEDESERVEDIT", he_deserv_edit, "?")
E(ISvm, "C_SVM", "HEKILLEDHIM", he_killed_him, "?")
E(ISvm, "C_SVM", "ITWASAGOODFIGHT", it_was_agood_fight, "?")
E(ISvm, "C_SVM", "FRIENDLYGREETINGS", friendly_greetings, "?")
E(ISvm, "C_SVM", "ALGREETINGS", al_greetings, "?")
E(ISvm, "C_SVM", "MAGEGREETINGS", mage_greetings, "?")
E(ISvm, "C_SVM", "SECTGREETINGS", sect_greetings, "?")
E(ISvm, "C_SVM", "THEREHEIS", there_he_is, "?")
E(ISvm, "C_SVM", "NOLEARNOVERMAX", no_learn_over_max, "?")
E(ISvm, "C_SVM", "NOLEARNYOUALREADYKNOW", no_learn_you_already_know, "?")
E(ISvm, "C_SVM", "HEYYOU", hey_you, "?")
E(ISvm, "C_SVM", "WHATDOYOUWANT", what_do_you_want, "?")
E(ISvm, "C_SVM", "ISAIDWHATDOYOUWANT", isaid_what_do_you_want, "?")
E(ISvm, "C_SVM", "MAKEWAY", make_way, "?")
E(ISvm, "C_SVM", "OUTOFMYWAY", out_of_my_way, "?")
E(ISvm, "C_SVM", "YOUDEAFORWHAT", you_deaf_or_what, "?")
E(ISvm, "C_SVM", "LOOKAWAY", look_away, "?")
E(ISvm, "C_SVM", "OKAYKEEPIT", okay_keep_it, "?")
E(ISvm, "C_SVM", "WHATSTHAT", whats_that, "?")
E(ISvm, "C_SVM", "THATSMYWEAPON", thats_my_weapon, "?")
E(ISvm, "C_SVM", "GIVEITTOME", give_it_tome, "?")
E(ISvm, "C_SVM", "YOUCANKEEPTHECRAP", you_can_keep_the_crap, "?")
E(ISvm, "C_SVM", "THEYKILLEDMYFRIEND", they_killed_my_friend, "?")
E(ISvm, "C_SVM", "SUCKERGOTSOME", sucker_got_some, "?")
E(ISvm, "C_SVM", "SUCKERDEFEATEDEBR", sucker_defeated_ebr, "?")
E(ISvm, "C_SVM", "SUCKERDEFEATEDGUR", sucker_defeated_gur, "?")
E(ISvm, "C_SVM", "SUCKERDEFEATEDMAGE", sucker_defeated_mage, "?")
E(ISvm, "C_SVM", "SUCKERDEFEATEDNOV_GUARD", sucker_defeated_nov_guard, "?")
E(ISvm, "C_SVM", "SUCKERDEFEATEDVLK_GUARD", sucker_defeated_vlk_guard, "?")
E(ISvm, "C_SVM", "YOUDEFEATEDMYCOMRADE", you_defeated_my_comrade, "?")
E(ISvm, "C_SVM", "YOUDEFEATEDNOV_GUARD", you_defeated_nov_guard, "?")
E(ISvm, "C_SVM", "YOUDEFEATEDVLK_GUARD", you_defeated_vlk_guard, "?")
E(ISvm, "C_SVM", "YOUSTOLEFROMME", you_stole_from_me, "?")
E(ISvm, "C_SVM", "YOUSTOLEFROMUS", you_stole_from_us, "?")
E(ISvm, "C_SVM", "YOUSTOLEFROMEBR", you_stole_from_ebr, "?")
E(ISvm, "C_SVM", "YOUSTOLEFROMGUR", you_stole_from_gur, "?")
E(ISvm, "C_SVM", "STOLEFROMMAGE", stole_urom_mage, "?")
E(ISvm, "C_SVM", "YOUKILLEDMYFRIEND", you_killedmyfriend, "?")
E(ISvm, "C_SVM", "YOUKILLEDEBR", you_killed_ebr, "?")
E(ISvm, "C_SVM", "YOUKILLEDGUR", you_killed_gur, "?")
E(ISvm, "C_SVM", "YOUKILLEDMAGE", you_killed_mage, "?")
E(ISvm, "C_SVM", "YOUKILLEDOCFOLK", you_killed_oc_folk, "?")
E(ISvm, "C_SVM", "YOUKILLEDNCFOLK", you_killed_nc_folk, "?")
E(ISvm, "C_SVM", "YOUKILLEDPSIFOLK", you_killed_psi_folk, "?")
E(ISvm, "C_SVM", "GETTHINGSRIGHT", get_things_right, "?")
E(ISvm, "C_SVM", "YOUDEFEATEDMEWELL", you_defeated_me_well, "?")
E(ISvm, "C_SVM", "OM", om, "?")
E(IMenu, "C_MENU", "BACKPIC", back_pic, "")
E(IMenu, "C_MENU", "BACKWORLD", back_world, "")
E(IMenu, "C_MENU", "POSX", pos_x, "")
E(IMenu, "C_MENU", "POSY", pos_y, "")
E(IMenu, "C_MENU", "DIMX", dim_x, "")
E(IMenu, "C_MENU", "DIMY", dim_y, "")
E(IMenu, "C_MENU", "ALPHA", alpha, "")
E(IMenu, "C_MENU", "MUSICTHEME", music_theme, "")
E(IMenu, "C_MENU", "EVENTTIMERMSEC", event_timer_msec, "")
E(IMenu, "C_MENU", "ITEMS", items, "")
E(IMenu, "C_MENU", "FLAGS", flags, "")
E(IMenu, "C_MENU", "DEFAULTOUTGAME", default_outgame, "")
E(IMenu, "C_MENU", "DEFAULTINGAME", default_ingame, "")
E(IMenuItem, "C_MENU_ITEM", "FONTNAME", fontname, "")
E(IMenuItem, "C_MENU_ITEM", "TEXT", text, "")
E(IMenuItem, "C_MENU_ITEM", "BACKPIC", backpic, "")
E(IMenuItem, "C_MENU_ITEM", "ALPHAMODE", alphamode, "")
E(IMenuItem, "C_MENU_ITEM", "ALPHA", alpha, "")
E(IMenuItem, "C_MENU_ITEM", "TYPE", type, "")
E(IMenuItem, "C_MENU_ITEM", "ONSELACTION", on_sel_action, "")
E(IMenuItem, "C_MENU_ITEM", "ONSELACTION_S", on_sel_action_s, "")
E(IMenuItem, "C_MENU_ITEM", "ONCHGSETOPTION", on_chg_set_option, "")
E(IMenuItem, "C_MENU_ITEM", "ONCHGSETOPTIONSECTION", on_chg_set_option_section, "")
E(IMenuItem, "C_MENU_ITEM", "ONEVENTACTION", on_event_action, "")
E(IMenuItem, "C_MENU_ITEM", "POSX", pos_x, "")
E(IMenuItem, "C_MENU_ITEM", "POSY", pos_y, "")
E(IMenuItem, "C_MENU_ITEM", "DIMX", dim_x, "")
E(IMenuItem, "C_MENU_ITEM", "DIMY", dim_y, "")
E(IMenuItem, "C_MENU_ITEM", "SIZESTARTSCALE", size_start_scale, "")
E(IMenuItem, "C_MENU_ITEM", "FLAGS", flags, "")
E(IMenuItem, "C_MENU_ITEM", "OPENDELAYTIME", open_delay_time, "")
E(IMenuItem, "C_MENU_ITEM", "OPENDURATION", open_duration, "")
E(IMenuItem, "C_MENU_ITEM", "USERFLOAT", user_float, "")
E(IMenuItem, "C_MENU_ITEM", "USERSTRING", user_string, "")
E(IMenuItem, "C_MENU_ITEM", "FRAMESIZEX", frame_sizex, "")
E(IMenuItem, "C_MENU_ITEM", "FRAMESIZEY", frame_sizey, "")
E(IMenuItem, "C_MENU_ITEM", "FRAMEPOSX", frame_posx, "FRAMEPOSX")
E(IMenuItem, "C_MENU_ITEM", "FRAMEPOSY", frame_posy, "FRAMEPOSX")
E(IMenuItem, "C_MENU_ITEM", "HIDEIFOPTIONSECTIONSET", hide_if_option_section_set, "HIDEIFOPTIONSECTIONSET")
E(IMenuItem, "C_MENU_ITEM", "HIDEIFOPTIONSET", hide_if_option_set, "HIDEIFOPTIONSECTIONSET")
E(IMenuItem, "C_MENU_ITEM", "HIDEONVALUE", hide_on_value, "HIDEIFOPTIONSECTIONSET")
E(ICamera, "CCAMSYS", "BESTRANGE", best_range, "")
E(ICamera, "CCAMSYS", "MINRANGE", min_range, "")
E(ICamera, "CCAMSYS", "MAXRANGE", max_range, "")
E(ICamera, "CCAMSYS", "BESTELEVATION", best_elevation, "")
E(ICamera, "CCAMSYS", "MINELEVATION", min_elevation, "")
E(ICamera, "CCAMSYS", "MAXELEVATION", max_elevation, "")
E(ICamera, "CCAMSYS", "BESTAZIMUTH", best_azimuth, "")
E(ICamera, "CCAMSYS", "MINAZIMUTH", min_azimuth, "")
E(ICamera, "CCAMSYS", "MAXAZIMUTH", max_azimuth, "")
E(ICamera, "CCAMSYS", "BESTROTZ", best_rot_z, "")
E(ICamera, "CCAMSYS", "MINROTZ", min_rot_z, "")
E(ICamera, "CCAMSYS", "MAXROTZ", max_rot_z, "")
E(ICamera, "CCAMSYS", "ROTOFFSETX", rot_offset_x, "")
E(ICamera, "CCAMSYS", "ROTOFFSETY", rot_offset_y, "")
E(ICamera, "CCAMSYS", "ROTOFFSETZ", rot_offset_z, "")
E(ICamera, "CCAMSYS", "TARGETOFFSETX", target_offset_x, "")
E(ICamera, "CCAMSYS", "TARGETOFFSETY", target_offset_y, "")
E(ICamera, "CCAMSYS", "TARGETOFFSETZ", target_offset_z, "")
E(ICamera, "CCAMSYS", "VELOTRANS", velo_trans, "")
E(ICamera, "CCAMSYS", "VELOROT", velo_rot, "")
E(ICamera, "CCAMSYS", "TRANSLATE", translate, "")
E(ICamera, "CCAMSYS", "ROTATE", rotate, "")
E(ICamera, "CCAMSYS", "COLLISION", collision, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "VOLUME", volume, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "BITRESOLUTION", bit_resolution, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "GLOBALREVERBENABLED", global_reverb_enabled, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "SAMPLERATE", sample_rate, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "NUMCHANNELS", num_channels, "")
E(IMusicSystem, "C_MUSICSYS_CFG", "REVERBBUFFERSIZE", reverb_buffer_size, "")
E(IMusicTheme, "C_MUSICTHEME", "FILE", file, "")
E(IMusicTheme, "C_MUSICTHEME", "VOL", vol, "")
E(IMusicTheme, "C_MUSICTHEME", "LOOP", loop, "")
E(IMusicTheme, "C_MUSICTHEME", "REVERBMIX", reverbmix, "")
E(IMusicTheme, "C_MUSICTHEME", "REVERBTIME", reverbtime, "")
E(IMusicTheme, "C_MUSICTHEME", "TRANSTYPE", transtype, "")
E(IMusicTheme, "C_MUSICTHEME", "TRANSSUBTYPE", transsubtype, "")
E(IMusicJingle, "C_MUSICJINGLE", "NAME", name, "")
E(IMusicJingle, "C_MUSICJINGLE", "LOOP", loop, "")
E(IMusicJingle, "C_MUSICJINGLE", "VOL", vol, "")
E(IMusicJingle, "C_MUSICJINGLE", "TRANSSUBTYPE", transsubtype, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSVALUE", pps_value, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSSCALEKEYS_S", pps_scale_keys_s, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSISLOOPING", pps_is_looping, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSISSMOOTH", pps_is_smooth, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSFPS", pps_fps, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSCREATEEM_S", pps_create_em_s, "")
E(IParticleEffect, "C_PARTICLEFX", "PPSCREATEEMDELAY", pps_create_em_delay, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPTYPE_S", shp_type_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPFOR_S", shp_for_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPOFFSETVEC_S", shp_offset_vec_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPDISTRIBTYPE_S", shp_distrib_type_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPDISTRIBWALKSPEED", shp_distrib_walk_speed, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPISVOLUME", shp_is_volume, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPDIM_S", shp_dim_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPMESH_S", shp_mesh_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPMESHRENDER_B", shp_mesh_render_b, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPSCALEKEYS_S", shp_scale_keys_s, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPSCALEISLOOPING", shp_scale_is_looping, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPSCALEISSMOOTH", shp_scale_is_smooth, "")
E(IParticleEffect, "C_PARTICLEFX", "SHPSCALEFPS", shp_scale_fps, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRMODE_S", dir_mode_s, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRFOR_S", dir_for_s, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRMODETARGETFOR_S", dir_mode_target_for_s, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRMODETARGETPOS_S", dir_mode_target_pos_s, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRANGLEHEAD", dir_angle_head, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRANGLEHEADVAR", dir_angle_head_var, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRANGLEELEV", dir_angle_elev, "")
E(IParticleEffect, "C_PARTICLEFX", "DIRANGLEELEVVAR", dir_angle_elev_var, "")
E(IParticleEffect, "C_PARTICLEFX", "VELAVG", vel_avg, "")
E(IParticleEffect, "C_PARTICLEFX", "VELVAR", vel_var, "")
E(IParticleEffect, "C_PARTICLEFX", "LSPPARTAVG", lsp_part_avg, "")
E(IParticleEffect, "C_PARTICLEFX", "LSPPARTVAR", lsp_part_var, "")
E(IParticleEffect, "C_PARTICLEFX", "FLYGRAVITY_S", fly_gravity_s, "")
E(IParticleEffect, "C_PARTICLEFX", "FLYCOLLDET_B", fly_colldet_b, "")
E(IParticleEffect, "C_PARTICLEFX", "VISNAME_S", vis_name_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISORIENTATION_S", vis_orientation_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISTEXISQUADPOLY", vis_tex_is_quadpoly, "")
E(IParticleEffect, "C_PARTICLEFX", "VISTEXANIFPS", vis_tex_ani_fps, "")
E(IParticleEffect, "C_PARTICLEFX", "VISTEXANIISLOOPING", vis_tex_ani_is_looping, "")
E(IParticleEffect, "C_PARTICLEFX", "VISTEXCOLORSTART_S", vis_tex_color_start_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISTEXCOLOREND_S", vis_tex_color_end_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISSIZESTART_S", vis_size_start_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISSIZEENDSCALE", vis_size_end_scale, "")
E(IParticleEffect, "C_PARTICLEFX", "VISALPHAFUNC_S", vis_alpha_func_s, "")
E(IParticleEffect, "C_PARTICLEFX", "VISALPHASTART", vis_alpha_start, "")
E(IParticleEffect, "C_PARTICLEFX", "VISALPHAEND", vis_alpha_end, "")
E(IParticleEffect, "C_PARTICLEFX", "TRLFADESPEED", trl_fade_speed, "")
E(IParticleEffect, "C_PARTICLEFX", "TRLTEXTURE_S", trl_texture_s, "")
E(IParticleEffect, "C_PARTICLEFX", "TRLWIDTH", trl_width, "")
E(IParticleEffect, "C_PARTICLEFX", "MRKFADESPEED", mrk_fades_peed, "")
E(IParticleEffect, "C_PARTICLEFX", "MRKTEXTURE_S", mrkt_exture_s, "")
E(IParticleEffect, "C_PARTICLEFX", "MRKSIZE", mrk_size, "")
E(IParticleEffect, "C_PARTICLEFX", "FLOCKMODE", flock_mode, "FLOCKMODE")
E(IParticleEffect, "C_PARTICLEFX", "FLOCKSTRENGTH", flock_strength, "FLOCKMODE")
E(IParticleEffect, "C_PARTICLEFX", "USEEMITTERSFOR", use_emitters_for, "FLOCKMODE")
E(IParticleEffect, "C_PARTICLEFX", "TIMESTARTEND_S", time_start_end_s, "FLOCKMODE")
E(IParticleEffect, "C_PARTICLEFX", "M_BISAMBIENTPFX", m_bis_ambient_pfx, "FLOCKMODE")
E(IEffectBase, "CFX_BASE", "VISNAME_S", vis_name_s, "")
E(IEffectBase, "CFX_BASE", "VISSIZE_S", vis_size_s, "")
E(IEffectBase, "CFX_BASE", "VISALPHA", vis_alpha, "")
E(IEffectBase, "CFX_BASE", "VISALPHABLENDFUNC_S", vis_alpha_blend_func_s, "")
E(IEffectBase, "CFX_BASE", "VISTEXANIFPS", vis_tex_ani_fps, "")
E(IEffectBase, "CFX_BASE", "VISTEXANIISLOOPING", vis_tex_ani_is_looping, "")
E(IEffectBase, "CFX_BASE", "EMTRJMODE_S", em_trj_mode_s, "")
E(IEffectBase, "CFX_BASE", "EMTRJORIGINNODE", em_trj_origin_node, "")
E(IEffectBase, "CFX_BASE", "EMTRJTARGETNODE", em_trj_target_node, "")
E(IEffectBase, "CFX_BASE", "EMTRJTARGETRANGE", em_trj_target_range, "")
E(IEffectBase, "CFX_BASE", "EMTRJTARGETAZI", em_trj_target_azi, "")
E(IEffectBase, "CFX_BASE", "EMTRJTARGETELEV", em_trj_target_elev, "")
E(IEffectBase, "CFX_BASE", "EMTRJNUMKEYS", em_trj_num_keys, "")
E(IEffectBase, "CFX_BASE", "EMTRJNUMKEYSVAR", em_trj_num_keys_var, "")
E(IEffectBase, "CFX_BASE", "EMTRJANGLEELEVVAR", em_trj_angle_elev_var, "")
E(IEffectBase, "CFX_BASE", "EMTRJANGLEHEADVAR", em_trj_angle_head_var, "")
E(IEffectBase, "CFX_BASE", "EMTRJKEYDISTVAR", em_trj_key_dist_var, "")
E(IEffectBase, "CFX_BASE", "EMTRJLOOPMODE_S", em_trj_loop_mode_s, "")
E(IEffectBase, "CFX_BASE", "EMTRJEASEFUNC_S", em_trj_ease_func_s, "")
E(IEffectBase, "CFX_BASE", "EMTRJEASEVEL", em_trj_ease_vel, "")
E(IEffectBase, "CFX_BASE", "EMTRJDYNUPDATEDELAY", em_trj_dyn_update_delay, "")
E(IEffectBase, "CFX_BASE", "EMTRJDYNUPDATETARGETONLY", em_trj_dyn_update_target_only, "")
E(IEffectBase, "CFX_BASE", "EMFXCREATE_S", em_fx_create_s, "")
E(IEffectBase, "CFX_BASE", "EMFXINVESTORIGIN_S", em_fx_invest_origin_s, "")
E(IEffectBase, "CFX_BASE", "EMFXINVESTTARGET_S", em_fx_invest_target_s, "")
E(IEffectBase, "CFX_BASE", "EMFXTRIGGERDELAY", em_fx_trigger_delay, "")
E(IEffectBase, "CFX_BASE", "EMFXCREATEDOWNTRJ", em_fx_create_down_trj, "")
E(IEffectBase, "CFX_BASE", "EMACTIONCOLLDYN_S", em_action_coll_dyn_s, "")
E(IEffectBase, "CFX_BASE", "EMACTIONCOLLSTAT_S", em_action_coll_stat_s, "")
E(IEffectBase, "CFX_BASE", "EMFXCOLLSTAT_S", em_fx_coll_stat_s, "")
E(IEffectBase, "CFX_BASE", "EMFXCOLLDYN_S", em_fx_coll_dyn_s, "")
E(IEffectBase, "CFX_BASE", "EMFXCOLLSTATALIGN_S", em_fx_coll_stat_align_s, "")
E(IEffectBase, "CFX_BASE", "EMFXCOLLDYNALIGN_S", em_fx_coll_dyn_align_s, "")
E(IEffectBase, "CFX_BASE", "EMFXLIFESPAN", em_fx_lifespan, "")
E(IEffectBase, "CFX_BASE", "EMCHECKCOLLISION", em_check_collision, "")
E(IEffectBase, "CFX_BASE", "EMADJUSTSHPTOORIGIN", em_adjust_shp_to_origin, "")
E(IEffectBase, "CFX_BASE", "EMINVESTNEXTKEYDURATION", em_invest_next_key_duration, "")
E(IEffectBase, "CFX_BASE", "EMFLYGRAVITY", em_fly_gravity, "")
E(IEffectBase, "CFX_BASE", "EMSELFROTVEL_S", em_self_rot_vel_s, "")
E(IEffectBase, "CFX_BASE", "USERSTRING", user_string, "")
E(IEffectBase, "CFX_BASE", "LIGHTPRESETNAME", light_preset_name, "")
E(IEffectBase, "CFX_BASE", "SFXID", sfx_id, "")
E(IEffectBase, "CFX_BASE", "SFXISAMBIENT", sfx_is_ambient, "")
E(IEffectBase, "CFX_BASE", "SENDASSESSMAGIC", send_assess_magic, "")
E(IEffectBase, "CFX_BASE", "SECSPERDAMAGE", secs_per_damage, "")
E(IEffectBase, "CFX_BASE", "EMFXCOLLDYNPERC_S", em_fx_coll_dyn_perc_s, "EMFXCOLLDYNPERC_S")
