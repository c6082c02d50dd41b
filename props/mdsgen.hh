// Model scripts: generator, writers of the text and the compiled form, comparison.
#pragma once
#include "meshgen.hh"
#include <zenkit/ModelScript.hh>

namespace mds {
	using namespace zenkit;
	struct EventName { char const* name; MdsEventType type; };
	inline EventName const EVENTS[] {
	    {"DEF_CREATE_ITEM", MdsEventType::ITEM_CREATE}, {"DEF_INSERT_ITEM", MdsEventType::ITEM_INSERT}, {"DEF_REMOVE_ITEM", MdsEventType::ITEM_REMOVE},
	    {"DEF_DESTROY_ITEM", MdsEventType::ITEM_DESTROY}, {"DEF_PLACE_ITEM", MdsEventType::ITEM_PLACE}, {"DEF_EXCHANGE_ITEM", MdsEventType::ITEM_EXCHANGE},
	    {"DEF_FIGHTMODE", MdsEventType::SET_FIGHT_MODE}, {"DEF_PLACE_MUNITION", MdsEventType::MUNITION_PLACE}, {"DEF_REMOVE_MUNITION", MdsEventType::MUNITION_REMOVE},
	    {"DEF_DRAWSOUND", MdsEventType::SOUND_DRAW}, {"DEF_UNDRAWSOUND", MdsEventType::SOUND_UNDRAW}, {"DEF_SWAPMESH", MdsEventType::MESH_SWAP},
	    {"DEF_DRAWTORCH", MdsEventType::TORCH_DRAW}, {"DEF_INV_TORCH", MdsEventType::TORCH_INVENTORY}, {"DEF_DROP_TORCH", MdsEventType::TORCH_DROP},
	    {"DEF_HIT_LIMB", MdsEventType::HIT_LIMB}, {"HIT_LIMB", MdsEventType::HIT_LIMB}, {"DEF_HIT_DIR", MdsEventType::HIT_DIRECTION}, {"DEF_DIR", MdsEventType::HIT_DIRECTION},
	    {"DEF_DAM_MULTIPLY", MdsEventType::DAMAGE_MULTIPLIER}, {"DEF_PAR_FRAME", MdsEventType::PARRY_FRAME}, {"DEF_OPT_FRAME", MdsEventType::OPTIMAL_FRAME},
	    {"DEF_HIT_END", MdsEventType::HIT_END}, {"DEF_WINDOW", MdsEventType::COMBO_WINDOW}, {"DEF_SOMETHING_ELSE", MdsEventType::UNKNOWN}};
	struct Mode { char const* name; MdsFightMode mode; };
	inline Mode const MODES[] {{"FIST", MdsFightMode::FIST}, {"1H", MdsFightMode::SINGLE_HANDED}, {"1h", MdsFightMode::SINGLE_HANDED}, {"2H", MdsFightMode::DUAL_HANDED}, {"2h", MdsFightMode::DUAL_HANDED}, {"BOW", MdsFightMode::BOW}, {"CBOW", MdsFightMode::CROSSBOW}, {"MAG", MdsFightMode::MAGIC}, {"", MdsFightMode::NONE}, {"SPEAR", MdsFightMode::NONE}};

	/// What a script says, with what is needed to write it down.
	struct Tag { MdsEventTag tag; std::string name, a, b; bool has_a {false}, has_b {false}; };
	struct Event { int kind; size_t index; }; // order of an animation's events over all kinds
	struct Ani { MdsAnimation a; std::vector<Tag> tags; std::vector<Event> order; std::string flags; };
	struct Comb { MdsAnimationCombine c; std::string flags; };
	struct Alias { MdsAnimationAlias a; std::string flags; };
	struct Item { int kind; size_t index; }; // 0 ani, 1 blend, 2 alias, 3 comb, 4 disable, 5 tag
	struct Script {
		std::string name;
		bool tree {false};
		MdsSkeleton skeleton;
		std::vector<std::string> meshes, disabled;
		std::vector<Ani> anis;
		std::vector<MdsAnimationBlend> blends;
		std::vector<Alias> aliases;
		std::vector<Comb> combs;
		std::vector<std::string> tags;
		std::vector<Item> order;
	};
	inline std::string text(pbt::Src& s) {
		if (s.chance(2, 3)) return s.ident(8) + (s.chance(1, 3) ? "(" + s.ident(2) + ")" : "") + (s.chance(1, 2) ? ".ASC" : "");
		auto t = msh::line(s, 12);
		for (auto& c : t) if (c == '"') c = '\'';
		return t;
	}
	inline std::string flags(pbt::Src& s, AnimationFlags& f) {
		static std::pair<char, AnimationFlags> const F[] {{'M', AnimationFlags::MOVE}, {'R', AnimationFlags::ROTATE}, {'E', AnimationFlags::QUEUE}, {'F', AnimationFlags::FLY}, {'I', AnimationFlags::IDLE}, {'P', AnimationFlags::INPLACE}};
		std::string t;
		f = AnimationFlags::NONE;
		for (size_t i = 0, n = 1 + s.below(4); i < n; ++i) {
			if (s.chance(1, 3)) { t += '.'; continue; }
			auto& x = F[s.below(6)];
			t += x.first, f |= x.second;
		}
		return t;
	}
	inline uint32_t layer(pbt::Src& s) { return s.u32() & 0x7FFFFFFF; }
	inline Tag tag(pbt::Src& s) {
		Tag t;
		auto& e = EVENTS[s.below(std::size(EVENTS))];
		t.name = e.name, t.tag.type = e.type, t.tag.frame = s.chance(1, 3) ? 0 : s.i32(), t.tag.attached = s.chance(1, 4);
		switch (e.type) {
		case MdsEventType::ITEM_CREATE:
		case MdsEventType::ITEM_EXCHANGE:
		case MdsEventType::MESH_SWAP:
			if ((t.has_a = s.chance(5, 6))) t.a = t.tag.slot = text(s);
			if ((t.has_b = t.has_a && s.chance(3, 4))) t.b = (e.type == MdsEventType::MESH_SWAP ? t.tag.slot2 : t.tag.item) = text(s);
			break;
		case MdsEventType::ITEM_INSERT:
		case MdsEventType::MUNITION_PLACE:
		case MdsEventType::HIT_LIMB:
			if ((t.has_a = s.chance(5, 6))) t.a = t.tag.slot = text(s);
			break;
		case MdsEventType::SET_FIGHT_MODE: {
			auto& m = MODES[s.below(std::size(MODES))];
			t.has_a = true, t.a = m.name, t.tag.fight_mode = m.mode;
			break;
		}
		case MdsEventType::DAMAGE_MULTIPLIER:
		case MdsEventType::PARRY_FRAME:
		case MdsEventType::OPTIMAL_FRAME:
		case MdsEventType::HIT_END:
		case MdsEventType::COMBO_WINDOW: {
			size_t n = s.len(5);
			t.has_a = n > 0 || s.flip();
			auto blank = [&] { for (size_t i = s.below(2); i > 0; --i) t.a += s.flip() ? ' ' : '\t'; };
			if (t.has_a) blank();
			for (size_t i = 0; i < n; ++i) {
				if (i) t.a += s.flip() ? ' ' : '\t';
				t.tag.frames.push_back(s.chance(1, 5) ? s.i32() : s.range(0, 50));
				t.a += std::to_string(t.tag.frames.back());
				blank();
			}
			break;
		}
		default: break;
		}
		return t;
	}
	inline Ani ani(pbt::Src& s) {
		Ani x;
		auto& a = x.a;
		a.name = text(s), a.layer = layer(s), a.next = text(s), a.blend_in = s.nice(), a.blend_out = s.nice(), x.flags = flags(s, a.flags), a.model = text(s);
		a.direction = s.flip() ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
		a.first_frame = s.i32(), a.last_frame = s.i32(), a.fps = s.flip() ? 25 : s.nice(), a.speed = s.nice(), a.collision_volume_scale = s.flip() ? 1 : s.nice();
		for (size_t i = 0, n = s.chance(2, 3) ? s.len(5) : 0; i < n; ++i) {
			int kind = static_cast<int>(s.below(7));
			auto range = [&] { return s.flip() ? 1000.f : s.nice(); };
			size_t at = 0;
			switch (kind) {
			case 0: at = x.tags.size(), x.tags.push_back(tag(s)); break;
			case 1: at = a.sfx.size(), a.sfx.push_back({s.i32(), text(s), range(), s.flip()}); break;
			case 2: at = a.sfx_ground.size(), a.sfx_ground.push_back({s.i32(), text(s), range(), s.flip()}); break;
			case 3: at = a.pfx.size(), a.pfx.push_back({s.i32(), s.flip() ? 0 : s.i32(), text(s), text(s), s.flip()}); break;
			case 4: at = a.pfx_stop.size(), a.pfx_stop.push_back({s.i32(), s.i32()}); break;
			case 5: at = a.morph.size(), a.morph.push_back({s.i32(), text(s), s.flip() ? "" : text(s)}); break;
			default: at = a.tremors.size(), a.tremors.push_back({s.i32(), s.i32(), s.i32(), s.i32(), s.i32()}); break;
			}
			x.order.push_back({kind, at});
		}
		return x;
	}
	inline Script script(pbt::Src& s) {
		Script x;
		x.name = text(s);
		if ((x.tree = s.chance(3, 4))) x.skeleton.name = text(s), x.skeleton.disable_mesh = s.flip();
		for (size_t i = 0, n = s.len(3); i < n; ++i) x.meshes.push_back(text(s));
		for (size_t i = 0, n = s.len(7); i < n; ++i) {
			int kind = static_cast<int>(s.weighted({3, 2, 1, 1, 1, 1}));
			size_t at = 0;
			switch (kind) {
			case 0: at = x.anis.size(), x.anis.push_back(ani(s)); break;
			case 1: {
				MdsAnimationBlend b;
				b.name = text(s), b.next = text(s);
				if (s.flip()) b.blend_in = s.nice(), b.blend_out = s.flip() ? 0 : s.nice();
				at = x.blends.size(), x.blends.push_back(b);
				break;
			}
			case 2: {
				Alias a;
				a.a.name = text(s), a.a.layer = layer(s), a.a.next = text(s), a.a.blend_in = s.nice(), a.a.blend_out = s.nice(), a.flags = flags(s, a.a.flags), a.a.alias = text(s);
				a.a.direction = s.flip() ? AnimationDirection::BACKWARD : AnimationDirection::FORWARD;
				at = x.aliases.size(), x.aliases.push_back(a);
				break;
			}
			case 3: {
				Comb c;
				c.c.name = text(s), c.c.layer = layer(s), c.c.next = text(s), c.c.blend_in = s.nice(), c.c.blend_out = s.nice(), c.flags = flags(s, c.c.flags), c.c.model = text(s), c.c.last_frame = s.i32();
				at = x.combs.size(), x.combs.push_back(c);
				break;
			}
			case 4: at = x.disabled.size(), x.disabled.push_back(text(s)); break;
			default: at = x.tags.size(), x.tags.push_back(text(s)); break;
			}
			x.order.push_back({kind, at});
		}
		return x;
	}

	// ---- text
	struct Text {
		pbt::Src& s;
		bool wild; // vary the layout
		std::string o;
		bool need {false}; // the next token must be kept apart from the previous one
		void comment() {
			auto c = s.str(12);
			for (auto& x : c) if (x == '\n') x = '_';
			o += (s.chance(3, 4) ? "//" : "/ ") + c + "\n";
		}
		void gap(bool must = false) {
			if (!wild) { if (must) o += ' '; return; }
			bool done = false;
			for (size_t i = s.chance(1, 2) ? 0 : s.below(3); i > 0; --i) {
				switch (s.below(7)) {
				case 0: o += "\t"; break;
				case 1: o += "\r\n"; break;
				case 2: o += ";"; break;
				case 3: o += ")"; break;
				case 4: o += "("; break;
				case 5: comment(); break;
				default: o += " "; break;
				}
				done = true;
			}
			if (must && !done) o += ' ';
		}
		void word(std::string w, bool fold = true) {
			gap(need);
			if (wild && fold && s.chance(1, 3)) for (auto& c : w) c = static_cast<char>(s.flip() ? toupper(c) : tolower(c));
			o += w, need = true;
		}
		void sym(char c) { gap(); o += c, need = false; }
		void num(std::string const& t) { gap(need); o += t, need = true; }
		void i(int64_t v) { num(std::to_string(v)); }
		void f(float v) {
			char b[64];
			snprintf(b, sizeof b, "%.6f", static_cast<double>(v));
			std::string t = b;
			if (s.chance(1, 2)) {
				while (t.back() == '0') t.pop_back();
				if (t.back() == '.') { if (s.flip()) t.pop_back(); else t += '0'; }
			}
			num(t);
		}
		void str(std::string const& t) {
			gap();
			o += '"' + t;
			bool plain = !t.empty() && t.back() != ')' && !isspace(static_cast<unsigned char>(t.back()));
			if (wild && plain && s.chance(1, 10)) { // unterminated strings end with their line, with or without the parenthesis
				if (s.flip()) o += s.chance(1, 4) ? ") " : ")";
				o += s.flip() ? "\n" : "\r\n";
			} else o += '"';
			need = false;
		}
		void flag(std::string t) {
			word(t, false);
			if (wild && s.chance(1, 8)) sym(':');
		}
		void named(char const* n, float v, float dflt) {
			if (v == dflt && s.flip()) return;
			word(n), sym(':'), f(v);
		}
		void open() { if (!wild) o += '('; }
		void close() { if (!wild) o += ")\n"; }
	};
	inline void write_tag(Text& t, Tag const& e) {
		t.word("*eventTag"), t.open();
		if (e.tag.frame != 0 || t.s.flip()) t.i(e.tag.frame);
		t.str(e.name);
		if (e.has_a) t.str(e.a);
		if (e.has_b) t.str(e.b);
		if (e.tag.attached) t.word("ATTACH");
		t.close();
	}
	inline void write_events(Text& t, Ani const& x) {
		auto& a = x.a;
		for (auto& e : x.order) {
			switch (e.kind) {
			case 0: write_tag(t, x.tags[e.index]); break;
			case 1: {
				auto& v = a.sfx[e.index];
				t.word("*eventSFX"), t.open(), t.i(v.frame), t.str(v.name), t.named("R", v.range, 1000);
				if (v.empty_slot) t.word(t.s.flip() ? "EMPTY_SLOT" : "EMTPY_SLOT");
				t.close();
				break;
			}
			case 2:
				t.word("*eventSFXGrnd"), t.open(), t.i(a.sfx_ground[e.index].frame), t.str(a.sfx_ground[e.index].name);
				if (a.sfx_ground[e.index].empty_slot) t.word("EMPTY_SLOT"); // mods have it, it is left out
				t.close();
				break;
			case 3: {
				auto& v = a.pfx[e.index];
				t.word("*eventPFX"), t.open(), t.i(v.frame);
				if (v.index != 0 || t.s.flip()) t.i(v.index);
				t.str(v.name), t.str(v.position);
				if (v.attached) { if (t.s.flip()) t.word("ATTACH"); else t.str("ATTACH"); }
				t.close();
				break;
			}
			case 4: t.word("*eventPFXStop"), t.open(), t.i(a.pfx_stop[e.index].frame), t.i(a.pfx_stop[e.index].index), t.close(); break;
			case 5: {
				auto& v = a.morph[e.index];
				t.word("*eventMMStartAni"), t.open(), t.i(v.frame), t.str(v.animation);
				if (!v.node.empty() || t.s.flip()) t.str(v.node);
				t.close();
				break;
			}
			default: {
				auto& v = a.tremors[e.index];
				t.word("*eventCamTremor"), t.open(), t.i(v.frame), t.i(v.field1), t.i(v.field2), t.i(v.field3), t.i(v.field4), t.close();
				break;
			}
			}
		}
	}
	inline std::string write_text(pbt::Src& s, Script const& x, bool wild) {
		Text t {s, wild, {}};
		if (wild && s.chance(1, 6)) t.comment();
		if (!t.o.empty() && t.o[1] != '/') t.o.insert(0, " ");
		t.word("Model"), t.open(), t.str(x.name), t.close(), t.sym('{');
		// top-level statements and aniEnum blocks in any order
		size_t mesh = 0, item = 0;
		bool tree = x.tree, enums = !x.order.empty() || s.flip();
		bool done = false;
		while (!done) {
			std::vector<int> can;
			if (tree) can.push_back(0);
			if (mesh < x.meshes.size()) can.push_back(1);
			if (enums) can.push_back(2);
			if (can.empty()) break;
			int pick = can[wild ? s.below(can.size()) : 0];
			if (pick == 0) {
				t.word("meshAndTree"), t.open(), t.str(x.skeleton.name);
				if (x.skeleton.disable_mesh) t.word("DONT_USE_MESH");
				t.close(), tree = false;
			} else if (pick == 1) {
				t.word("registerMesh"), t.open(), t.str(x.meshes[mesh++]), t.close();
			} else {
				t.word("aniEnum"), t.sym('{');
				size_t until = wild && s.chance(1, 4) ? item + s.below(x.order.size() - item + 1) : x.order.size();
				for (; item < until; ++item) {
					auto i = x.order[item].index;
					bool last = item + 1 == until;
					auto junk_block = [&] { // blocks of events that only animations keep
						if (!s.chance(1, 4)) return;
						t.sym('{');
						if (s.flip()) write_tag(t, tag(s));
						t.sym('}');
					};
					switch (x.order[item].kind) {
					case 0: {
						auto& v = x.anis[i];
						auto& a = v.a;
						t.word("ani"), t.open(), t.str(a.name), t.i(a.layer), t.str(a.next), t.f(a.blend_in), t.f(a.blend_out), t.flag(v.flags), t.str(a.model);
						t.word(a.direction == AnimationDirection::BACKWARD ? "R" : "F"), t.i(a.first_frame), t.i(a.last_frame), t.named("FPS", a.fps, 25), t.named("CVS", a.collision_volume_scale, 1), t.close();
						bool brace = (!v.order.empty() && !wild) || s.chance(2, 3);
						if (brace) t.sym('{');
						write_events(t, v);
						if (brace && (last || !wild || s.chance(5, 6))) t.sym('}');
						break;
					}
					case 1: {
						auto& b = x.blends[i];
						t.word("aniBlend"), t.open(), t.str(b.name);
						if (s.chance(1, 4)) t.i(s.range(0, 100));
						t.str(b.next);
						if (b.blend_in != 0 || b.blend_out != 0 || s.flip()) {
							t.f(b.blend_in);
							if (b.blend_out != 0 || s.flip()) t.f(b.blend_out);
						}
						AnimationFlags f;
						if (wild && s.chance(1, 6)) t.flag(flags(s, f));
						t.close(), junk_block();
						break;
					}
					case 2: {
						auto& v = x.aliases[i];
						auto& a = v.a;
						t.word("aniAlias"), t.open(), t.str(a.name), t.i(a.layer), t.str(a.next), t.f(a.blend_in), t.f(a.blend_out), t.flag(v.flags), t.str(a.alias);
						if (a.direction == AnimationDirection::BACKWARD) t.word("R");
						else if (s.flip()) t.word("F");
						t.close();
						break;
					}
					case 3: {
						auto& v = x.combs[i];
						auto& a = v.c;
						t.word("aniComb"), t.open(), t.str(a.name), t.i(a.layer), t.str(a.next), t.f(a.blend_in), t.f(a.blend_out), t.flag(v.flags), t.str(a.model), t.i(a.last_frame), t.close(), junk_block();
						break;
					}
					case 4: t.word("aniDisable"), t.open(), t.str(x.disabled[i]), t.close(); break;
					default: t.word("modelTag"), t.open(), t.str("DEF_HIT_LIMB"), t.str(x.tags[i]), t.close(); break;
					}
				}
				enums = item < x.order.size();
				// the last braces of a script can be missing
				if (!enums && !tree && mesh == x.meshes.size() && wild && s.chance(1, 8)) done = true;
				else t.sym('}');
			}
		}
		if (!done && !(wild && s.chance(1, 8))) t.sym('}');
		if (wild) {
			t.gap();
			if (s.chance(1, 8)) { t.comment(); if (s.flip()) t.o.pop_back(); }
		}
		return t.o;
	}

	// ---- compiled
	inline Out write_binary(pbt::Src& s, Script const& x, msh::Noise n = {}) {
		Out o;
		{ Out c; c.u32(1).line("\\_WORK\\DATA\\ANIMS\\"); o.chunk(0xF000, c); }
		{ Out c; Date d = msh::date(s); msh::enc(c, d); c.line("A.MDS"); n.chunk(o, 0xF100, c); }
		n.chunk(o, 0xF200, {});
		if (x.tree) { Out c; c.u32(x.skeleton.disable_mesh ? 1 + s.below(2) : 0).line(x.skeleton.name); n.chunk(o, 0xF300, c); }
		for (auto& m : x.meshes) { Out c; c.line(m); n.chunk(o, 0xF400, c); }
		n.chunk(o, 0xF500, {});
		auto dir = [](AnimationDirection d) { return d == AnimationDirection::BACKWARD ? "R" : "F"; };
		for (auto& it : x.order) {
			Out c;
			auto i = it.index;
			switch (it.kind) {
			case 0: {
				auto& v = x.anis[i];
				auto& a = v.a;
				c.line(a.name).u32(a.layer).line(a.next).f32(a.blend_in).f32(a.blend_out).line(v.flags).line(a.model).line(dir(a.direction)).u32(static_cast<uint32_t>(a.first_frame)).u32(static_cast<uint32_t>(a.last_frame)).f32(a.fps).f32(a.speed).f32(a.collision_volume_scale);
				n.chunk(o, 0xF520, c);
				if (v.order.empty() && s.flip()) break;
				{ Out e; e.u32(v.order.size()); n.chunk(o, 0xF5A0, e); }
				for (auto& ev : v.order) {
					Out e;
					switch (ev.kind) {
					case 0: {
						auto& t = v.tags[ev.index];
						e.u32(static_cast<uint32_t>(t.tag.frame)).line(t.name).line(t.a).line(t.b).line("").line("");
						n.chunk(o, 0xF5A3, e);
						break;
					}
					case 1: { auto& t = a.sfx[ev.index]; e.u32(static_cast<uint32_t>(t.frame)).line(t.name).f32(t.range).u32(t.empty_slot); n.chunk(o, 0xF5A1, e); break; }
					case 2: { auto& t = a.sfx_ground[ev.index]; e.u32(static_cast<uint32_t>(t.frame)).line(t.name).f32(t.range).u32(t.empty_slot); n.chunk(o, 0xF5A2, e); break; }
					case 3: { auto& t = a.pfx[ev.index]; e.u32(static_cast<uint32_t>(t.frame)).u32(static_cast<uint32_t>(t.index)).line(t.name).line(t.position).u32(t.attached); n.chunk(o, 0xF5A4, e); break; }
					case 4: { auto& t = a.pfx_stop[ev.index]; e.u32(static_cast<uint32_t>(t.frame)).u32(static_cast<uint32_t>(t.index)); n.chunk(o, 0xF5A5, e); break; }
					case 5: { auto& t = a.morph[ev.index]; e.u32(static_cast<uint32_t>(t.frame)).line(t.animation).line(t.node).u32(s.chance(1, 4) ? 0x0A090D20 : s.u32()).u32(s.u32()); n.chunk(o, 0xF5A9, e); break; }
					default: { auto& t = a.tremors[ev.index]; for (int32_t q : {t.frame, t.field1, t.field2, t.field3, t.field4}) e.u32(static_cast<uint32_t>(q)); n.chunk(o, 0xF5AA, e); break; }
					}
				}
				n.chunk(o, 0xF5AF, {});
				break;
			}
			case 1: { auto& b = x.blends[i]; c.line(b.name).line(b.next).f32(b.blend_in).f32(b.blend_out); n.chunk(o, 0xF540, c); break; }
			case 2: {
				auto& v = x.aliases[i];
				c.line(v.a.name).u32(v.a.layer).line(v.a.next).f32(v.a.blend_in).f32(v.a.blend_out).line(v.flags).line(v.a.alias).line(dir(v.a.direction));
				n.chunk(o, 0xF530, c);
				break;
			}
			case 3: {
				auto& v = x.combs[i];
				c.line(v.c.name).u32(v.c.layer).line(v.c.next).f32(v.c.blend_in).f32(v.c.blend_out).line(v.flags).line(v.c.model).u32(static_cast<uint32_t>(v.c.last_frame));
				n.chunk(o, 0xF570, c);
				break;
			}
			case 4: c.line(x.disabled[i]); n.chunk(o, 0xF580, c); break;
			default: c.u32(0).line(s.flip() ? "DEF_HIT_LIMB" : "HIT_LIMB").line(x.tags[i]).line("").line("").line(""); n.chunk(o, 0xF590, c); break;
			}
		}
		n.chunk(o, 0xF5FF, {}), n.chunk(o, 0xF2FF, {}), n.chunk(o, 0xFFFF, {});
		return o;
	}
	inline void same(Script const& x, ModelScript const& b, bool text, std::string const& w, std::string const& key) {
		using msh::eq;
#define MDS_EQ(what, cond) do { if (!(cond)) pbt::fail(key + "-" what, w + ": " what " differs"); } while (0)
#define MDS_ALL(what, A, B, cond) do { \
		if ((A).size() != (B).size()) pbt::fail(key + "-" what "-count", w + ": " + std::to_string((B).size()) + " " what "s, " + std::to_string((A).size()) + " described"); \
		for (size_t i_ = 0; i_ < (A).size(); ++i_) { auto &p = (A)[i_]; auto &q = (B)[i_]; MDS_EQ(what, cond); } \
	} while (0)
		MDS_EQ("skeleton", x.skeleton.name == b.skeleton.name && x.skeleton.disable_mesh == b.skeleton.disable_mesh);
		MDS_ALL("mesh", x.meshes, b.meshes, p == q);
		MDS_ALL("disabled", x.disabled, b.disabled_animations, p == q);
		MDS_ALL("model-tag", x.tags, b.model_tags, p == q.bone);
		MDS_ALL("blend", x.blends, b.blends, p.name == q.name && p.next == q.next && eq(p.blend_in, q.blend_in) && eq(p.blend_out, q.blend_out));
		MDS_ALL("alias", x.aliases, b.aliases, p.a.name == q.name && p.a.layer == q.layer && p.a.next == q.next && eq(p.a.blend_in, q.blend_in) && eq(p.a.blend_out, q.blend_out) && p.a.flags == q.flags && p.a.alias == q.alias && p.a.direction == q.direction);
		MDS_ALL("combination", x.combs, b.combinations, p.c.name == q.name && p.c.layer == q.layer && p.c.next == q.next && eq(p.c.blend_in, q.blend_in) && eq(p.c.blend_out, q.blend_out) && p.c.flags == q.flags && p.c.model == q.model && p.c.last_frame == q.last_frame);
		MDS_ALL("animation", x.anis, b.animations, p.a.name == q.name && p.a.layer == q.layer && p.a.next == q.next && eq(p.a.blend_in, q.blend_in) && eq(p.a.blend_out, q.blend_out) && p.a.flags == q.flags && p.a.model == q.model && p.a.direction == q.direction && p.a.first_frame == q.first_frame && p.a.last_frame == q.last_frame && eq(p.a.fps, q.fps) && eq(p.a.collision_volume_scale, q.collision_volume_scale) && (text || eq(p.a.speed, q.speed)));
		for (size_t i = 0; i < x.anis.size(); ++i) {
			auto& m = x.anis[i];
			auto& n = b.animations[i];
			MDS_ALL("event", m.tags, n.events, p.tag.frame == q.frame && p.tag.type == q.type && p.tag.slot == q.slot && p.tag.slot2 == q.slot2 && p.tag.item == q.item && p.tag.frames == q.frames && (p.tag.type != MdsEventType::SET_FIGHT_MODE || p.tag.fight_mode == q.fight_mode) && (!text || p.tag.attached == q.attached));
			MDS_ALL("sfx", m.a.sfx, n.sfx, p.frame == q.frame && p.name == q.name && eq(p.range, q.range) && p.empty_slot == q.empty_slot);
			MDS_ALL("ground-sfx", m.a.sfx_ground, n.sfx_ground, p.frame == q.frame && p.name == q.name && (text || (eq(p.range, q.range) && p.empty_slot == q.empty_slot)));
			MDS_ALL("pfx", m.a.pfx, n.pfx, p.frame == q.frame && p.index == q.index && p.name == q.name && p.position == q.position && p.attached == q.attached);
			MDS_ALL("pfx-stop", m.a.pfx_stop, n.pfx_stop, p.frame == q.frame && p.index == q.index);
			MDS_ALL("morph", m.a.morph, n.morph, p.frame == q.frame && p.animation == q.animation && p.node == q.node);
			MDS_ALL("tremor", m.a.tremors, n.tremors, p.frame == q.frame && p.field1 == q.field1 && p.field2 == q.field2 && p.field3 == q.field3 && p.field4 == q.field4);
		}
#undef MDS_EQ
#undef MDS_ALL
	}
}
