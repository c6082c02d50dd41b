// Independent parsers of bin-safe and ASCII archives into arch::Items (docs/engine/formats/archive.md).
#pragma once
#include "arch.hh"
#include <sstream>

namespace arch {
	struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
	struct File {
		ArchiveFormat fmt {ArchiveFormat::BINARY};
		bool save {false};
		uint32_t objects {0};
		Items items;
	};
	inline void obj_head(std::string const& line, Item& it) { // [name class version index]
		std::istringstream is {line.substr(1, line.size() - 2)};
		std::string cls;
		unsigned long ver = 0, idx = 0;
		if (!(is >> it.name >> cls)) {
			throw Bad("malformed object header " + line);
		}
		if (!(is >> ver >> idx)) { // class name missing
			throw Bad("malformed object header " + line);
		}
		it.k = cls == "\xA7" ? REF : OBJ;
		it.s = it.k == REF ? "" : cls;
		it.u = it.k == REF ? static_cast<uint32_t>(idx) : static_cast<uint32_t>(ver);
		it.index = static_cast<uint32_t>(idx);
	}
	inline File parse_file(Bytes const& file, bool world = false) { // worlds: "MeshAndBsp" holds bytes outside of the encoding
		std::string d(reinterpret_cast<char const*>(file.data()), file.size());
		size_t p = 0;
		auto line = [&] {
			auto e = d.find('\n', p);
			if (e == d.npos) e = d.size();
			auto l = d.substr(p, e - p);
			p = std::min(d.size(), e + 1);
			if (!l.empty() && l.back() == '\r') l.pop_back();
			return l;
		};
		File f;
		if (line() != "ZenGin Archive") throw Bad("no archive");
		line(), line();
		auto fmt = line();
		f.fmt = fmt == "ASCII" ? ArchiveFormat::ASCII : fmt == "BINARY" ? ArchiveFormat::BINARY : ArchiveFormat::BINSAFE;
		for (std::string l; (l = line()) != "END";) {
			if (p >= d.size()) throw Bad("header not terminated");
			if (l.rfind("saveGame ", 0) == 0) f.save = l.substr(9) != "0";
		}
		std::vector<Item> stack(1); // stack[0] collects the root items
		auto close = [&] {
			if (stack.size() < 2) throw Bad("object end without object");
			auto it = std::move(stack.back());
			stack.pop_back();
			stack.back().kids.push_back(std::move(it));
		};
		auto blob = [&] {
			if (!world || stack.back().name != "MeshAndBsp" || stack.back().k != OBJ) return;
			if (d.size() - p < 8) throw Bad("truncated");
			uint32_t n = 0;
			for (int i = 3; i >= 0; --i) n = n << 8 | static_cast<uint8_t>(d[p + 4 + static_cast<size_t>(i)]);
			if (d.size() - p - 8 < n) throw Bad("mesh and BSP tree are larger than the file");
			Item b;
			b.k = BLOB;
			b.raw.assign(d.begin() + static_cast<long>(p), d.begin() + static_cast<long>(p + 8 + n));
			p += 8 + n;
			stack.back().kids.push_back(std::move(b));
		};
		if (f.fmt == ArchiveFormat::BINSAFE) {
			auto need = [&](size_t n) { if (n > d.size() - p) throw Bad("truncated"); };
			auto u8 = [&] { need(1); return static_cast<uint8_t>(d[p++]); };
			auto u16 = [&] { unsigned a = u8(); return static_cast<uint16_t>(a | u8() << 8); };
			auto u32 = [&] { uint32_t a = u16(); return a | static_cast<uint32_t>(u16()) << 16; };
			auto f32 = [&] { return bitsf(u32()); };
			u32();
			f.objects = u32();
			size_t table = u32(), body = p;
			if (table > d.size()) throw Bad("hash table outside the file");
			p = table;
			std::map<unsigned, std::string> keys;
			for (auto n = u32(); n; --n) {
				unsigned len = u16(), id = u16();
				u32();
				need(len);
				keys[id] = d.substr(p, len);
				p += len;
			}
			p = body;
			while (p < table) {
				Item it;
				auto t = u8();
				if (t == 0x12) {
					auto id = u32();
					if (!keys.count(id)) throw Bad("entry with unknown key");
					it.name = keys[id];
					t = u8();
				} else if (t != 1) throw Bad("entry without key");
				else {
					auto n = u16();
					need(n);
					auto s = d.substr(p, n);
					p += n;
					if (s == "[]") close();
					else { obj_head(s, it); stack.push_back(std::move(it)); blob(); }
					continue;
				}
				auto str = [&] { auto n = u16(); need(n); auto s = d.substr(p, n); p += n; return s; };
				switch (t) {
				case 1: it.k = STR; it.s = str(); break;
				case 2: it.k = INT; it.u = u32(); break;
				case 3: it.k = FLT; it.f[0] = f32(); break;
				case 4: it.k = BYTE; it.u = u8(); break;
				case 5: it.k = WORD; it.u = u16(); break;
				case 6: it.k = BOOL; it.u = u32(); break;
				case 7: it.k = VEC3; for (int i = 0; i < 3; ++i) it.f[i] = f32(); break;
				case 8: it.k = COLOR; it.c[2] = u8(), it.c[1] = u8(), it.c[0] = u8(), it.c[3] = u8(); break;
				case 9: { it.k = RAW; auto s = str(); it.raw.assign(s.begin(), s.end()); break; }
				case 0x10: {
					auto n = u16();
					it.k = n == 8 ? VEC2 : BBOX;
					if (n != 8 && n != 24) throw Bad("unexpected rawFloat size");
					for (unsigned i = 0; i < n / 4; ++i) it.f[i] = f32();
					break;
				}
				case 0x11: it.k = ENUM; it.u = u32(); break;
				default: throw Bad("unknown entry type");
				}
				stack.back().kids.push_back(std::move(it));
			}
		} else {
			auto l = line();
			if (l.rfind("objects ", 0) != 0) throw Bad("no object count");
			f.objects = static_cast<uint32_t>(atoi(l.c_str() + 8));
			if (line() != "END") throw Bad("header not terminated");
			if (f.fmt == ArchiveFormat::BINARY) return f;
			while (p < d.size()) {
				l = line();
				size_t a = l.find_first_not_of('\t');
				if (a == l.npos) continue;
				l = l.substr(a);
				Item it;
				auto eq = l.find('='), co = eq == l.npos ? l.npos : l.find(':', eq);
				if (l == "[]") close();
				else if (l[0] == '[' && l.back() == ']' && (eq == l.npos || eq > l.find(' '))) {
					obj_head(l, it);
					stack.push_back(std::move(it));
					blob();
				} else {
					if (co == l.npos) throw Bad("malformed entry " + l);
					it.name = l.substr(0, eq);
					auto t = l.substr(eq + 1, co - eq - 1), v = l.substr(co + 1);
					std::istringstream is {v};
					if (t == "string") it.k = STR, it.s = v;
					else if (t == "int") it.k = INT, it.u = static_cast<uint32_t>(strtoll(v.c_str(), nullptr, 10));
					else if (t == "enum") it.k = ENUM, it.u = static_cast<uint32_t>(strtoll(v.c_str(), nullptr, 10));
					else if (t == "bool") it.k = BOOL, it.u = static_cast<uint32_t>(strtoll(v.c_str(), nullptr, 10));
					else if (t == "float") it.k = FLT, it.f[0] = strtof(v.c_str(), nullptr);
					else if (t == "color") { it.k = COLOR; unsigned c; for (auto& x : it.c) { is >> c; x = static_cast<uint8_t>(c); } }
					else if (t == "vec3" || t == "rawFloat") {
						std::vector<float> n;
						std::string w;
						while (is >> w) n.push_back(strtof(w.c_str(), nullptr));
						it.k = t == "vec3" ? VEC3 : n.size() == 2 ? VEC2 : BBOX;
						if (n.size() != (it.k == VEC3 ? 3u : it.k == VEC2 ? 2u : 6u)) throw Bad("unexpected number of values in " + l);
						for (size_t i = 0; i < n.size(); ++i) it.f[i] = n[i];
					} else if (t == "raw") {
						it.k = RAW;
						if (v.size() % 2) throw Bad("odd number of digits in " + l);
						for (size_t i = 0; i < v.size(); i += 2) it.raw.push_back(static_cast<uint8_t>(strtoul(v.substr(i, 2).c_str(), nullptr, 16)));
					} else throw Bad("unknown entry type in " + l);
					stack.back().kids.push_back(std::move(it));
				}
			}
		}
		if (stack.size() != 1) throw Bad("object not ended");
		f.items = std::move(stack[0].kids);
		return f;
	}
	// Entry names whose number the engine's sources do not settle are compared without it.
	inline void forgive(Items& v) {
		for (auto& i : v) {
			for (char const* p : {"hc", "slaveTriggered", "slaveVobName", "childs"})
				if (i.name.rfind(p, 0) == 0 && i.name.find_first_not_of("0123456789", strlen(p)) == i.name.npos) i.name = p;
			forgive(i.kids);
		}
	}
	// What a parser without knowledge of the classes can tell apart.
	inline Items normal(Items v, ArchiveFormat fmt) {
		for (auto& i : v) {
			if (i.k == MAT3) {
				i.k = RAW;
				Out o;
				for (auto& f : i.f) { o.f32(f); f = 0; }
				i.raw = o.b;
			}
			if (fmt == ArchiveFormat::ASCII && (i.k == BYTE || i.k == WORD)) i.k = INT;
			i.kids = normal(std::move(i.kids), fmt);
		}
		return v;
	}
}
