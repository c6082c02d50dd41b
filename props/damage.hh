// Damage to archives on the level of entries and to texts on the level of lines and words.
#pragma once
#include "arch.hh"
#include "mutate.hh"
#include "fields.hh"

// Largest single allocation since it was reset (see alloc.cc)
extern volatile size_t g_largest_alloc;

namespace dmg {
	using arch::Item;
	using arch::Items;
	inline void flatten(Items& v, std::vector<std::pair<Items*, size_t>>& out) {
		for (size_t i = 0; i < v.size(); ++i) out.push_back({&v, i}), flatten(v[i].kids, out);
	}
	inline uint32_t number(pbt::Src& s, uint32_t old) {
		switch (s.below(6)) {
		case 0: return old + static_cast<uint32_t>(s.range(-3, 3));
		case 1: return static_cast<uint32_t>(s.below(300));
		case 2: return s.pick({0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x10000u, 0x8000u, 0x1000000u, 0x100u});
		default: return s.u32();
		}
	}
	inline Item entry(pbt::Src& s) {
		Item i;
		i.k = static_cast<arch::Kind>(s.below(arch::KIND_COUNT));
		i.name = s.flip() ? "%" : s.ident(6);
		i.u = s.u32();
		if (i.k == arch::OBJ) i.s = s.pick(fld::classes()).name, i.u = s.u16(), i.index = static_cast<uint32_t>(s.below(12));
		else if (i.k == arch::REF) i.index = i.u = static_cast<uint32_t>(s.below(12));
		else i.s = s.str(12);
		i.raw = s.bytes(80);
		for (auto& f : i.f) f = s.finite();
		return i;
	}
	// One change of the tree of entries.
	inline void items(pbt::Src& s, Items& root, std::ostream& log) {
		std::vector<std::pair<Items*, size_t>> all;
		flatten(root, all);
		if (all.empty()) return;
		// objects and counts are where most of the structure is
		auto [v, at] = s.pick(all);
		if (s.flip()) {
			std::vector<std::pair<Items*, size_t>> few;
			for (auto& p : all) { auto& i = (*p.first)[p.second]; if (i.k == arch::OBJ || i.k == arch::REF || i.k == arch::INT) few.push_back(p); }
			if (!few.empty()) std::tie(v, at) = s.pick(few);
		}
		Item& i = (*v)[at];
		log << " " << arch::kind_name(i.k) << ":" << i.name;
		switch (s.below(10)) {
		case 0: log << " removed"; v->erase(v->begin() + static_cast<long>(at)); return;
		case 1: { log << " doubled"; Item c = i; v->insert(v->begin() + static_cast<long>(at), c); return; }
		case 2: { log << " preceded"; auto e = entry(s); v->insert(v->begin() + static_cast<long>(at), e); return; }
		case 3: { log << " replaced"; auto n = i.name; i = entry(s); if (s.flip()) i.name = n; return; }
		case 4: { // moved
			auto [v2, at2] = s.pick(all);
			Item c = i;
			log << " copied";
			v2->insert(v2->begin() + static_cast<long>(at2), c);
			return;
		}
		default: break;
		}
		switch (i.k) {
		case arch::OBJ:
			switch (s.below(5)) {
			case 0: i.s = s.pick(fld::classes()).name; log << " class " << i.s; break;
			case 1: i.s = s.pick({"%", "", "\xA7", "zCUnknown:zCVob"}); log << " class " << i.s; break;
			case 2: i.u = s.u16(); log << " version " << i.u; break;
			case 3: i.index = s.flip() ? static_cast<uint32_t>(s.below(12)) : s.u32(); log << " index " << i.index; break;
			default: i.name = s.pick({"%", "VobTree", "WayNet", "EndMarker", "MeshAndBsp", "SkyCtrl", "CutscenePlayer", ""}); log << " named " << i.name; break;
			}
			break;
		case arch::REF: i.index = i.u = s.chance(3, 4) ? static_cast<uint32_t>(s.below(12)) : s.u32(); log << " to " << i.u; break;
		case arch::STR:
			switch (s.below(4)) {
			case 0: i.s = s.text(12, "0123456789 .-+eE:;()#=[]"); break;
			case 1: i.s.clear(); break;
			case 2: i.s += s.str(6); break;
			default: if (!i.s.empty()) i.s.resize(s.below(i.s.size()));
			}
			log << "=" << pbt::quote(i.s);
			break;
		case arch::RAW:
		case arch::BLOB: {
			Bytes b = to_bytes(i.raw);
			if (s.chance(1, 4)) b.resize(s.below(b.size() + 1));
			else for (size_t k = 0, n = 1 + s.below(2); k < n; ++k) mutate(s, b, log);
			i.raw.assign(b.size(), 0);
			if (!b.empty()) memcpy(i.raw.data(), b.data(), b.size());
			break;
		}
		case arch::FLT: case arch::VEC3: case arch::VEC2: case arch::BBOX: case arch::MAT3:
			i.f[s.below(9)] = bitsf(s.u32());
			break;
		default: i.u = number(s, i.u); log << "=" << static_cast<int32_t>(i.u);
		}
	}
	// One change of a text (also: of the text parts of a binary file).
	inline void text(pbt::Src& s, Bytes& b, std::ostream& log) {
		std::string t(reinterpret_cast<char const*>(b.data()), b.size());
		std::vector<size_t> lines {0};
		for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n' && i + 1 < t.size()) lines.push_back(i + 1);
		auto at = s.pick(lines);
		auto end = std::min(t.find('\n', at), t.size());
		auto line = t.substr(at, end - at);
		auto next = std::min(end + 1, t.size());
		switch (s.below(8)) {
		case 0: log << " -line@" << at; t.erase(at, next - at); break;
		case 1: log << " +line@" << at; t.insert(s.pick(lines), line + "\n"); break;
		case 2: { // another line in its place
			auto from = s.pick(lines);
			log << " line@" << from << "->" << at;
			t.replace(at, end - at, t.substr(from, std::min(t.find('\n', from), t.size()) - from));
			break;
		}
		case 3: { // value of an entry
			auto c = line.find(':');
			auto p = c == std::string::npos ? line.find(' ') : c;
			if (p == std::string::npos) p = 0;
			static char const* odd[] = {"", "-1", "2147483647", "2147483648", "-2147483648", "4294967295", "99999999999", "-99999999999", "99999999999999999999999", "1e99", "nan", "x", "0x10", " ", "1e-60", "+", "-", "255", "65536", "-1e39", "inf"};
			std::string v = odd[s.below(std::size(odd))];
			line = line.substr(0, p + 1) + v;
			log << " line@" << at << "=" << pbt::quote(line.substr(0, 60));
			t.replace(at, end - at, line);
			break;
		}
		case 4: { // some number
			std::vector<std::pair<size_t, size_t>> nums;
			for (size_t i = 0; i < line.size();) {
				if (!isdigit(static_cast<unsigned char>(line[i]))) { ++i; continue; }
				size_t j = i;
				while (j < line.size() && isdigit(static_cast<unsigned char>(line[j]))) ++j;
				nums.push_back({i, j});
				i = j;
			}
			if (nums.empty()) break;
			auto [i, j] = s.pick(nums);
			auto v = std::to_string(static_cast<int32_t>(number(s, 0)));
			if (s.chance(1, 5)) v += "00000000000";
			line.replace(i, j - i, v);
			log << " line@" << at << "=" << pbt::quote(line.substr(0, 60));
			t.replace(at, end - at, line);
			break;
		}
		case 5: log << " split@" << at; t.insert(at + s.below(line.size() + 1), "\n"); break;
		case 6: log << " joined@" << end; if (end < t.size()) t.erase(end, 1); break;
		default: { // a part of the line
			size_t i = s.below(line.size() + 1), n = s.below(line.size() - i + 1);
			log << " -part@" << at + i << "+" << n;
			t.erase(at + i, n);
		}
		}
		b = to_bytes(t);
	}
	// Swaps the class in the head of some object in an encoded file.
	inline void classes(pbt::Src& s, Bytes& b, std::ostream& log) {
		std::string t(reinterpret_cast<char const*>(b.data()), b.size());
		std::vector<std::pair<size_t, std::string>> found;
		for (auto& c : fld::classes())
			for (size_t p = t.find(c.name); p != std::string::npos; p = t.find(c.name, p + 1)) {
				char before = p ? t[p - 1] : 0, after = p + strlen(c.name) < t.size() ? t[p + strlen(c.name)] : 0;
				if ((before == ' ' && after == ' ') || (before == 0 && after == 0)) found.push_back({p, c.name});
			}
		if (found.empty()) return;
		auto [p, old] = s.pick(found);
		std::string neu = s.chance(4, 5) ? s.pick(fld::classes()).name : s.pick({std::string("%"), std::string("\xA7"), std::string("zCNone")});
		log << " class@" << p << " " << old << "->" << neu;
		// length of the text in bin-safe files
		auto open = t.rfind('[', p);
		if (open != std::string::npos && open >= 3 && t[open - 3] == 1 && p - open < 200) {
			uint16_t n;
			memcpy(&n, t.data() + open - 2, 2);
			n = static_cast<uint16_t>(n + neu.size() - old.size());
			memcpy(t.data() + open - 2, &n, 2);
		}
		t.replace(p, old.size(), neu);
		b = to_bytes(t);
	}
	inline void file(pbt::Src& s, Bytes& b, std::ostream& log) {
		if (b.empty()) return;
		switch (s.weighted({4, 3, 3, 1})) {
		case 0: mutate(s, b, log); break;
		case 1: text(s, b, log); break;
		case 2: classes(s, b, log); break;
		default: { size_t n = s.below(b.size()); log << " cut@" << n; b.resize(n); }
		}
	}
	struct Bounded { // memory used by a case
		size_t limit;
		explicit Bounded(size_t file) : limit((size_t(64) << 20) + 512 * file) { g_largest_alloc = 0; }
		void check() const { CHECK("memory", g_largest_alloc <= limit, "one allocation of " << g_largest_alloc << " bytes"); }
	};
}
