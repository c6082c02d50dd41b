// Model of archive contents: a tree of typed entries, objects and references, with generators,
// independent encoders for the three encodings, and drivers for the library's writer and reader.
#pragma once
#include "common.hh"
#include <zenkit/Archive.hh>
#include <map>

namespace arch {
	using zenkit::ArchiveFormat;
	enum Kind { STR, INT, FLT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, OBJ, REF, KIND_COUNT, BLOB };
	inline char const* kind_name(int k) {
		static char const* n[] = {"string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3", "raw", "object", "ref", "", "blob"};
		return n[k];
	}
	inline char const* fmt_name(ArchiveFormat f) {
		return f == ArchiveFormat::ASCII ? "ascii" : f == ArchiveFormat::BINARY ? "binary" : "binsafe";
	}
	struct Item {
		Kind k {INT};
		std::string name;
		std::string s;            // string value / class name
		uint32_t u {0};           // integers, object version, reference index
		float f[9] {};
		uint8_t c[4] {};
		std::vector<uint8_t> raw;
		std::vector<Item> kids;
		uint32_t index {0};       // expected object index
	};
	using Items = std::vector<Item>;

	struct GenOpt {
		ArchiveFormat fmt;
		bool objects {true};
		unsigned max_depth {4};
		bool refs {false};
	};
	inline std::string gen_value_string(pbt::Src& s, ArchiveFormat fmt) {
		switch (s.weighted({5, 3, 2, 1, 1})) {
		case 0: return s.ident(12);
		case 1: return s.str(40);
		case 2: { // any byte the encoding can carry
			std::string v;
			for (size_t i = 0, n = s.len(30); i < n; ++i) {
				char c = static_cast<char>(s.u8());
				if (fmt != ArchiveFormat::BINSAFE && (c == 0 || c == '\n' || c == '\r')) c = '.';
				v.push_back(c);
			}
			return v;
		}
		case 3: { // strings resembling the archives' own syntax
			static std::vector<std::string> const t {"[]", "[a b 1 2]", "x=int:1", "=", ":", "[% % 0 0]", " ", "\t[]", "  lead", "trail  ", "END", "%", "\xA7"};
			return s.pick(t);
		}
		default: return std::string(s.below(fmt == ArchiveFormat::BINSAFE && s.chance(1, 20) ? 65536 : 400), 'x');
		}
	}
	inline float gen_float(pbt::Src& s) { return s.flip() ? s.finite() : s.nice(); }
	inline Item gen_entry(pbt::Src& s, ArchiveFormat fmt) {
		Item it;
		it.k = static_cast<Kind>(s.below(OBJ));
		it.name = s.chance(1, 12) ? "" : s.chance(1, 3) ? std::string(s.pick({"a", "b", "bb", "name", "value0"})) : s.ident(14);
		switch (it.k) {
		case STR: it.s = gen_value_string(s, fmt); break;
		case INT: it.u = s.u32(); break;
		case FLT: it.f[0] = gen_float(s); break;
		case BYTE: it.u = s.u8(); break;
		case WORD: it.u = s.u16(); break;
		case ENUM: it.u = fmt == ArchiveFormat::BINARY ? s.u8() : s.u32(); break;
		case BOOL: it.u = s.flip(); break;
		case COLOR: for (auto& c : it.c) c = s.u8(); break;
		case VEC3: for (int i = 0; i < 3; ++i) it.f[i] = gen_float(s); break;
		case VEC2: for (int i = 0; i < 2; ++i) it.f[i] = gen_float(s); break;
		case BBOX: for (int i = 0; i < 6; ++i) it.f[i] = gen_float(s); break;
		case MAT3: for (int i = 0; i < 9; ++i) it.f[i] = gen_float(s); break;
		case RAW: it.raw = s.bytes(s.chance(1, 60) ? 65535 : 300); break;
		default: break;
		}
		return it;
	}
	inline std::string gen_obj_name(pbt::Src& s) {
		return s.chance(1, 3) ? "%" : s.chance(1, 15) ? std::string(s.range(60, 120), 'n') : s.ident(16);
	}
	inline std::string gen_class(pbt::Src& s) {
		if (s.chance(1, 6)) return "%";
		std::string c = s.ident(10);
		for (auto n = s.below(3); n; --n) c += ":" + s.ident(10);
		return c;
	}
	// `next` counts the objects that receive an index.
	inline Items gen_items(pbt::Src& s, GenOpt const& o, uint32_t& next, unsigned depth = 0, size_t max = 10) {
		Items out;
		for (size_t i = 0, n = s.len(max); i < n; ++i) {
			if (o.objects && depth < o.max_depth && s.chance(1, 3)) {
				Item it;
				it.k = OBJ;
				it.name = gen_obj_name(s);
				it.s = gen_class(s);
				it.u = s.u16();
				if (it.s != "%") it.index = next++;
				it.kids = gen_items(s, o, next, depth + 1, max);
				out.push_back(std::move(it));
			} else if (o.refs && next && s.chance(1, 5)) {
				Item it;
				it.k = REF;
				it.name = gen_obj_name(s);
				it.index = it.u = static_cast<uint32_t>(s.below(next));
				out.push_back(std::move(it));
			} else out.push_back(gen_entry(s, o.fmt));
		}
		return out;
	}
	inline size_t count(Items const& v) {
		size_t n = 0;
		for (auto& i : v) n += 1 + count(i.kids);
		return n;
	}
	inline void describe(std::ostream& o, Items const& v, int depth = 0) {
		for (auto& i : v) {
			for (int d = 0; d < depth; ++d) o << "  ";
			o << kind_name(i.k) << ' ' << pbt::quote(i.name);
			switch (i.k) {
			case STR: o << " " << pbt::quote(i.s.substr(0, 80)) << " len " << i.s.size(); break;
			case INT: case BYTE: case WORD: case ENUM: case BOOL: o << " " << static_cast<int32_t>(i.u); break;
			case RAW: o << " " << pbt::hex(i.raw.data(), i.raw.size(), 16) << " len " << i.raw.size(); break;
			case COLOR: for (auto c : i.c) o << ' ' << int(c); break;
			case OBJ: o << " class " << pbt::quote(i.s) << " ver " << i.u << " index " << i.index; break;
			case REF: o << " -> " << i.index; break;
			default: for (int n = 0; n < (i.k == FLT ? 1 : i.k == VEC2 ? 2 : i.k == VEC3 ? 3 : i.k == BBOX ? 6 : 9); ++n) o << ' ' << i.f[n];
			}
			o << '\n';
			describe(o, i.kids, depth + 1);
		}
	}
	inline zenkit::Mat3 mat(float const* f) { // row-major values
		zenkit::Mat3 m {};
		for (int r = 0; r < 3; ++r)
			for (int c = 0; c < 3; ++c) m[c][r] = f[r * 3 + c];
		return m;
	}
	inline float const* fp(zenkit::Vec3 const& v) { return &v.x; }

	// A view that is not followed by a NUL, as a string_view need not be.
	struct View {
		std::unique_ptr<char[]> p;
		size_t n;
		explicit View(std::string const& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
		operator std::string_view() const { return {p.get(), n}; }
	};
	// ---- library writer ----
	inline void write(zenkit::WriteArchive& w, Items const& v) {
		for (auto& i : v) {
			switch (i.k) {
			case STR: w.write_string(View(i.name), View(i.s)); break;
			case INT: w.write_int(i.name, static_cast<int32_t>(i.u)); break;
			case FLT: w.write_float(i.name, i.f[0]); break;
			case BYTE: w.write_byte(i.name, static_cast<uint8_t>(i.u)); break;
			case WORD: w.write_word(i.name, static_cast<uint16_t>(i.u)); break;
			case ENUM: w.write_enum(i.name, i.u); break;
			case BOOL: w.write_bool(i.name, i.u != 0); break;
			case COLOR: w.write_color(i.name, zenkit::Color {i.c[0], i.c[1], i.c[2], i.c[3]}); break;
			case VEC3: w.write_vec3(i.name, zenkit::Vec3 {i.f[0], i.f[1], i.f[2]}); break;
			case VEC2: if (i.name.size() % 3 == 2) w.write_raw_float(i.name, i.f, 2); else w.write_vec2(i.name, zenkit::Vec2 {i.f[0], i.f[1]}); break;
			case BBOX: if (i.name.size() % 3 == 2) w.write_raw_float(i.name, i.f, 6); else w.write_bbox(i.name, zenkit::AxisAlignedBoundingBox {{i.f[0], i.f[1], i.f[2]}, {i.f[3], i.f[4], i.f[5]}}); break;
			case MAT3: w.write_mat3x3(i.name, mat(i.f)); break;
			case RAW:
				if (i.raw.size() % 2) w.write_raw(i.name, to_bytes(i.raw));
				else w.write_raw(i.name, reinterpret_cast<std::byte const*>(i.raw.data()), static_cast<uint16_t>(i.raw.size()));
				break;
			case OBJ: {
				auto idx = w.write_object_begin(View(i.name), View(i.s), static_cast<uint16_t>(i.u));
				CHECK("object-index", idx == i.index, "write_object_begin returned index " << idx << ", expected " << i.index);
				write(w, i.kids);
				w.write_object_end();
				break;
			}
			case REF: w.write_ref(View(i.name), i.u); break;
			default: break;
			}
		}
	}

	// ---- independent encoders (docs/engine/formats/archive.md) ----
	inline std::string ftext(float f) {
		char b[64];
		snprintf(b, sizeof b, "%f", static_cast<double>(f));
		return b;
	}
	inline void enc_binary(Out& o, Items const& v) {
		for (auto& i : v) switch (i.k) {
			case STR: o.str(i.s).u8(0); break;
			case INT: o.u32(i.u); break;
			case FLT: o.f32(i.f[0]); break;
			case BYTE: case ENUM: case BOOL: o.u8(i.u); break;
			case WORD: o.u16(i.u); break;
			case COLOR: o.u8(i.c[2]).u8(i.c[1]).u8(i.c[0]).u8(i.c[3]); break;
			case VEC3: for (int n = 0; n < 3; ++n) o.f32(i.f[n]); break;
			case VEC2: for (int n = 0; n < 2; ++n) o.f32(i.f[n]); break;
			case BBOX: for (int n = 0; n < 6; ++n) o.f32(i.f[n]); break;
			case MAT3: for (int n = 0; n < 9; ++n) o.f32(i.f[n]); break;
			case RAW: case BLOB: o.raw(i.raw.data(), i.raw.size()); break;
			case OBJ: case REF: {
				size_t at = o.size();
				o.u32(0).u16(i.k == REF ? 0 : i.u).u32(i.index).str(i.name).u8(0).str(i.k == REF ? "\xA7" : i.s).u8(0);
				enc_binary(o, i.kids);
				o.put32(at, o.size() - at);
				break;
			}
			default: break;
		}
	}
	struct Keys {
		std::vector<std::string> list;
		std::map<std::string, size_t> ids;
		size_t id(std::string const& k) {
			auto [it, fresh] = ids.emplace(k, list.size());
			if (fresh) list.push_back(k);
			return it->second;
		}
	};
	inline std::string obj_line(Item const& i) {
		return "[" + i.name + " " + (i.k == REF ? "\xA7" : i.s) + " " + std::to_string(i.k == REF ? 0 : i.u) + " " + std::to_string(i.index) + "]";
	}
	inline void enc_binsafe(Out& o, Keys& k, Items const& v) {
		for (auto& i : v) {
			if (i.k == OBJ || i.k == REF) {
				auto l = obj_line(i);
				o.u8(1).u16(l.size()).str(l);
				enc_binsafe(o, k, i.kids);
				o.u8(1).u16(2).str("[]");
				continue;
			}
			if (i.k == BLOB) { o.raw(i.raw.data(), i.raw.size()); continue; }
			o.u8(0x12).u32(k.id(i.name));
			switch (i.k) {
			case STR: o.u8(1).u16(i.s.size()).str(i.s); break;
			case INT: o.u8(2).u32(i.u); break;
			case FLT: o.u8(3).f32(i.f[0]); break;
			case BYTE: o.u8(4).u8(i.u); break;
			case WORD: o.u8(5).u16(i.u); break;
			case ENUM: o.u8(0x11).u32(i.u); break;
			case BOOL: o.u8(6).u32(i.u); break;
			case COLOR: o.u8(8).u8(i.c[2]).u8(i.c[1]).u8(i.c[0]).u8(i.c[3]); break;
			case VEC3: o.u8(7); for (int n = 0; n < 3; ++n) o.f32(i.f[n]); break;
			case VEC2: o.u8(0x10).u16(8); for (int n = 0; n < 2; ++n) o.f32(i.f[n]); break;
			case BBOX: o.u8(0x10).u16(24); for (int n = 0; n < 6; ++n) o.f32(i.f[n]); break;
			case MAT3: o.u8(9).u16(36); for (int n = 0; n < 9; ++n) o.f32(i.f[n]); break;
			case RAW: o.u8(9).u16(i.raw.size()).raw(i.raw.data(), i.raw.size()); break;
			default: break;
			}
		}
	}
	inline std::string hexs(void const* p, size_t n) {
		static char const d[] = "0123456789abcdef";
		std::string r;
		for (size_t i = 0; i < n; ++i) { auto b = static_cast<uint8_t const*>(p)[i]; r += d[b >> 4]; r += d[b & 15]; }
		return r;
	}
	struct Line { std::string text; std::vector<float> floats; bool is_float {false}; bool blob {false}; };
	inline void enc_ascii(std::vector<Line>& o, Items const& v) {
		for (auto& i : v) {
			auto num = [&](char const* t, int n) {
				Line l {i.name + "=" + t + ":", {}, true};
				for (int j = 0; j < n; ++j) l.floats.push_back(i.f[j]);
				o.push_back(std::move(l));
			};
			auto put = [&](char const* t, std::string val) { o.push_back({i.name + "=" + t + ":" + val, {}, false}); };
			switch (i.k) {
			case STR: put("string", i.s); break;
			case INT: put("int", std::to_string(static_cast<int32_t>(i.u))); break;
			case FLT: num("float", 1); break;
			case BYTE: case WORD: put("int", std::to_string(i.u)); break;
			case ENUM: put("enum", std::to_string(i.u)); break;
			case BOOL: put("bool", std::to_string(i.u)); break;
			case COLOR: put("color", std::to_string(i.c[0]) + " " + std::to_string(i.c[1]) + " " + std::to_string(i.c[2]) + " " + std::to_string(i.c[3])); break;
			case VEC3: num("vec3", 3); break;
			case VEC2: num("rawFloat", 2); break;
			case BBOX: num("rawFloat", 6); break;
			case MAT3: put("raw", hexs(i.f, 36)); break;
			case RAW: put("raw", hexs(i.raw.data(), i.raw.size())); break;
			case BLOB: o.push_back({std::string(i.raw.begin(), i.raw.end()), {}, false, true}); break; // bytes outside of the text
			case OBJ: case REF:
				o.push_back({obj_line(i), {}, false});
				enc_ascii(o, i.kids);
				o.push_back({"[]", {}, false});
				break;
			default: break;
			}
		}
	}
	// A whole archive file made without the library.
	inline Bytes encode(ArchiveFormat fmt, bool save, Items const& v, uint32_t objects, unsigned style = 0) {
		Out o;
		o.line("ZenGin Archive").line("ver 1");
		o.line(fmt == ArchiveFormat::BINSAFE ? "zCArchiverBinSafe" : "zCArchiverGeneric");
		o.line(fmt == ArchiveFormat::ASCII ? "ASCII" : fmt == ArchiveFormat::BINARY ? "BINARY" : "BIN_SAFE");
		o.line(save ? "saveGame 1" : "saveGame 0");
		if (!(style & 1)) o.line("date 3.10.2022 11:15:55");
		if (style & 16) o.line("user XZEN");
		else if (!(style & 2)) o.line("user steam user");
		o.line("END");
		if (fmt == ArchiveFormat::BINSAFE) {
			o.u32(2).u32(objects);
			size_t at = o.size();
			o.u32(0);
			Keys k;
			enc_binsafe(o, k, v);
			o.put32(at, o.size());
			o.u32(k.list.size());
			auto order = k.list;
			if (style & 4) std::reverse(order.begin(), order.end());
			for (auto& n : order) {
				uint32_t h = 0;
				for (char c : n) h = h * 0x21 + c;
				o.u16(n.size()).u16(k.ids[n]).u32(h % 0x61).str(n);
			}
		} else {
			std::string cnt = std::to_string(objects);
			cnt.resize(std::max<size_t>(cnt.size(), 9), ' ');
			o.line("objects " + cnt).line("END").str("\n");
			if (fmt == ArchiveFormat::BINARY) enc_binary(o, v);
			else {
				std::vector<Line> l;
				enc_ascii(l, v);
				int depth = 0;
				for (auto& x : l) {
					if (x.blob) { o.str(x.text); continue; }
					if (x.text == "[]") --depth;
					for (int d = 0; d < depth; ++d) o.u8('\t');
					o.str(x.text);
					for (size_t n = 0; n < x.floats.size(); ++n) {
						if (n) o.u8(' ');
						o.str(ftext(x.floats[n]));
					}
					o.str(style & 8 ? "\r\n" : "\n");
					if (x.text[0] == '[' && x.text != "[]") ++depth;
				}
			}
		}
		return o.bytes();
	}
	inline bool float_ok(ArchiveFormat fmt, float want, float got) {
		if (fbits(want) == fbits(got)) return true;
		if (fmt != ArchiveFormat::ASCII) return false;
		double tol = 6e-7 + std::abs(static_cast<double>(want)) * 1.2e-7;
		return std::abs(static_cast<double>(want) - static_cast<double>(got)) <= tol;
	}
	// ---- library reader, comparing one entry ----
	inline void read_entry(zenkit::ReadArchive& r, Item const& i, ArchiveFormat fmt) {
		auto num = [&](float const* got, int n) {
			for (int j = 0; j < n; ++j)
				CHECK(std::string("value-") + kind_name(i.k), float_ok(fmt, i.f[j], got[j]), kind_name(i.k) << " component " << j << ": wrote " << ftext(i.f[j]) << " (" << std::hex << fbits(i.f[j]) << "), read " << ftext(got[j]) << " (" << fbits(got[j]) << ")");
		};
		auto eq = [&](auto got, auto want) {
			CHECK(std::string("value-") + kind_name(i.k), got == want, kind_name(i.k) << ": wrote " << want << ", read " << got);
		};
		switch (i.k) {
		case STR: { auto g = r.read_string(); CHECK("value-string", g == i.s, "string: wrote " << pbt::quote(i.s.substr(0, 100)) << ", read " << pbt::quote(g.substr(0, 100))); break; }
		case INT: eq(r.read_int(), static_cast<int32_t>(i.u)); break;
		case FLT: { float g = r.read_float(); num(&g, 1); break; }
		case BYTE: eq(uint32_t(r.read_byte()), i.u); break;
		case WORD: eq(uint32_t(r.read_word()), i.u); break;
		case ENUM: eq(r.read_enum(), i.u); break;
		case BOOL: eq(r.read_bool(), i.u != 0); break;
		case COLOR: { auto g = r.read_color(); eq(int(g.r), int(i.c[0])); eq(int(g.g), int(i.c[1])); eq(int(g.b), int(i.c[2])); eq(int(g.a), int(i.c[3])); break; }
		case VEC3: { auto g = r.read_vec3(); float f[] {g.x, g.y, g.z}; num(f, 3); break; }
		case VEC2: { auto g = r.read_vec2(); float f[] {g.x, g.y}; num(f, 2); break; }
		case BBOX: { auto g = r.read_bbox(); float f[] {g.min.x, g.min.y, g.min.z, g.max.x, g.max.y, g.max.z}; num(f, 6); break; }
		case MAT3: { auto g = r.read_mat3x3(); float f[9]; for (int a = 0; a < 9; ++a) f[a] = g[a % 3][a / 3];
			for (int j = 0; j < 9; ++j) CHECK("value-mat3", fbits(f[j]) == fbits(i.f[j]), "matrix element " << j << ": wrote " << i.f[j] << ", read " << f[j]);
			break; }
		case RAW: { auto g = slurp(*r.read_raw(i.raw.size())); CHECK("value-raw", g == to_bytes(i.raw), "raw: wrote " << i.raw.size() << " bytes " << pbt::hex(i.raw.data(), i.raw.size(), 24) << ", read " << g.size() << " bytes " << bhex(g, 24)); break; }
		default: break;
		}
	}
	inline void check_begin(zenkit::ReadArchive& r, Item const& i) {
		zenkit::ArchiveObject o;
		CHECK("object-begin", r.read_object_begin(o), "no object begin where object " << i.name << " starts");
		std::string cls = i.k == REF ? "\xA7" : i.s;
		CHECK("object-header", o.object_name == i.name && o.class_name == cls && o.version == (i.k == REF ? 0 : i.u) && o.index == i.index,
		      "object header: expected " << pbt::quote(obj_line(i)) << ", read [" << pbt::quote(o.object_name) << " " << pbt::quote(o.class_name) << " " << o.version << " " << o.index << "]");
	}
	inline void check_end(zenkit::ReadArchive& r, Item const& i) {
		CHECK("object-end", r.read_object_end(), "no object end behind the contents of object " << i.name);
	}
} // namespace arch
