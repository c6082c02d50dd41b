// Generated asset files of every kind and the damage done to them.
#pragma once
#include "damage.hh"
#include "mdsgen.hh"
#include "modelgen.hh"
#include "tex.hh"
#include "pbt.hh"
using namespace zenkit;
using ::Bytes;

namespace ag {
	inline GameVersion game(pbt::Src& s) { return s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }

	enum Kind { TEX, FNT, MSH, MDH, MRM, MDM, MDL, MAN, MMB, MDS, MSB, KINDS };
	char const* const NAME[] {"texture", "font", "mesh", "hierarchy", "mrm", "model mesh", "model", "animation", "morph mesh", "model script", "compiled model script"};

	inline Bytes make(pbt::Case& k, int kind) {
		auto& s = k.src;
		Out o;
		auto g = game(s);
		switch (kind) {
		case TEX: { auto m = tex::gen(s, 32, 5); tex::encode(o, m); break; }
		case FNT: { auto f = mdl::font(s); mdl::encode(o, f); break; }
		case MSH: { auto m = msh::mesh(s, g, false, 8); msh::encode(o, m, g, false, s.flip()); break; }
		case MDH: { auto h = mdl::hierarchy(s); mdl::encode(o, h); break; }
		case MRM: { auto m = mdl::mrm(s, g); mdl::encode(o, m, g, s.flip() ? &s : nullptr); break; }
		case MDL: { auto h = mdl::hierarchy(s); mdl::encode(o, h); }
		[[fallthrough]];
		case MDM: { auto m = mdl::model_mesh(s, g); mdl::encode(o, m, g, s.chance(1, 8), s.flip()); break; }
		case MAN: { auto a = mdl::animation(s); mdl::encode(o, a); break; }
		case MMB: { auto m = mdl::morph(s); mdl::encode(o, m); break; }
		case MDS: { auto x = mds::script(s); return to_bytes(mds::write_text(s, x, s.flip())); }
		default: { auto x = mds::script(s); o = mds::write_binary(s, x); }
		}
		return o.bytes();
	}
	/// Fields that hold counts and sizes are what binary formats depend on.
	inline void counts(pbt::Src& s, Bytes& b, std::ostream& log) {
		if (b.size() < 8) return;
		size_t w = s.flip() ? 4 : 2;
		std::vector<size_t> at; // numbers that look like one
		for (size_t i = 0; i + w <= b.size() && at.size() < 400; ++i) {
			uint32_t v = 0;
			for (size_t j = 0; j < w; ++j) v |= uint32_t(b[i + j]) << (8 * j);
			if (v && v < 300) at.push_back(i);
		}
		if (at.empty()) return;
		auto p = s.pick(at);
		uint32_t v = uint32_t(b[p]) | uint32_t(b[p + 1]) << 8;
		v = dmg::number(s, v);
		for (size_t j = 0; j < w; ++j) b[p + j] = std::byte(v >> (8 * j));
		log << " count" << w << "@" << p << "=" << v;
	}
	inline void damage(pbt::Case& k, int kind, Bytes& b) {
		auto& s = k.src;
		for (size_t i = 0, n = 1 + s.below(3); i < n; ++i) {
			if (b.empty()) break;
			switch (kind == MDS ? s.weighted({1, 6, 0, 1}) : s.weighted({5, 1, 5, 1})) {
			case 0: mutate(s, b, k.log); break;
			case 1: dmg::text(s, b, k.log); break;
			case 2: counts(s, b, k.log); break;
			default: { size_t c = s.below(b.size()); k.log << " cut@" << c; b.resize(c); }
			}
		}
	}
	/// The words of a model script in another order, unfinished or with odd values
	inline void words(pbt::Src& s, Bytes& b, std::ostream& log) {
		std::string t(reinterpret_cast<char const*>(b.data()), b.size());
		static std::string const word[] {"Model", "aniEnum", "ani", "{", "}", "(", ")", "\"", "*eventTag", "*eventSFX", "*eventSFXGrnd", "*eventPFX", "*eventPFXStop", "*eventMMStartAni", "*eventCamTremor", "aniAlias", "aniBlend", "aniComb", "aniDisable", "modelTag", "meshAndTree", "startMesh", "registerMesh", "//", "/*", "*/", "-", ".", "..", "-.", "1e9", "99999999999", "-99999999999", "1.5", "-1", "\"x\"", "CAM:", "(DEF_HIT_LIMB)", "R", "attach", "\n", "\t", ",", ";"};
		std::vector<size_t> gaps {0, t.size()};
		for (size_t i = 0; i < t.size(); ++i) if (strchr(" \t\n(){}\"", t[i])) gaps.push_back(i);
		auto at = s.pick(gaps);
		auto& w = word[s.below(std::size(word))];
		auto end = t.size();
		for (auto g : gaps) if (g > at && g < end) end = g;
		switch (s.below(3)) {
		case 0: t.insert(at, " " + w + " "); log << " +" << w << "@" << at; break;
		case 1: t.replace(at, end - at, " " + w); log << " =" << w << "@" << at; break;
		default: t.erase(at, end - at); log << " -word@" << at;
		}
		b = to_bytes(t);
	}
}
