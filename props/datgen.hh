// Compiled Daedalus scripts (.DAT): an in-memory description, its encoder and helpers to assemble
// byte code. Written from docs/engine/formats/{script_binaries,bytecode}.md, independent of the loader.
#pragma once
#include "common.hh"
#include <zenkit/DaedalusScript.hh>
#include <zenkit/DaedalusVm.hh>

#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace dat {
	enum Type : uint32_t { VOID, FLOAT, INT, STRING, CLASS, FUNCTION, PROTOTYPE, INSTANCE };
	enum Flag : uint32_t { CONST = 1, RETURN = 2, MEMBER = 4, EXTERNAL = 8, MERGED = 16 };

	struct Sym {
		bool named = true;
		std::string name; // as in the file
		Type type = INT;
		uint32_t flags = 0;
		uint32_t count = 1;
		uint32_t vary = 0; // member offset, class size or return type
		uint32_t file = 0, line = 0, lines = 0, chr = 0, chrs = 0;
		std::vector<int32_t> ints;
		std::vector<float> floats;
		std::vector<std::string> strings; // as in the file (escapes not resolved)
		int32_t class_offset = 0;
		int32_t address = -1;
		int32_t parent = -1;
		std::string stray; // white space some compilers leave behind a constant string

		bool member() const { return flags & MEMBER; }
		std::string shown() const { return !named ? "" : !name.empty() && name[0] == '\xFF' ? "$" + name.substr(1) : name; }
	};

	inline std::string unescape(std::string const& s) {
		std::string o;
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] == '\\' && i + 1 < s.size() && (s[i + 1] == 'n' || s[i + 1] == 't')) {
				o += s[i + 1] == 'n' ? '\n' : '\t';
				++i;
			} else {
				o += s[i];
			}
		}
		return o;
	}

	struct Bytes {
		std::vector<uint8_t> b;
		void u8(uint32_t v) { b.push_back((uint8_t) v); }
		void u32(uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((uint8_t) (v >> (8 * i))); }
		void f32(float f) { uint32_t v; std::memcpy(&v, &f, 4); u32(v); }
		void line(std::string const& s) { b.insert(b.end(), s.begin(), s.end()); b.push_back('\n'); }
		size_t size() const { return b.size(); }
	};

	struct Image {
		uint8_t version = 50;
		std::vector<Sym> syms;
		std::vector<uint32_t> sort;
		std::vector<uint8_t> code;

		std::vector<uint8_t> encode() const {
			Bytes o;
			o.u8(version);
			o.u32((uint32_t) syms.size());
			for (size_t i = 0; i < syms.size(); ++i) o.u32(i < sort.size() ? sort[i] : (uint32_t) i);
			for (auto& s : syms) {
				o.u32(s.named ? 1 : 0);
				if (s.named) o.line(s.name);
				o.u32(s.vary);
				o.u32((s.count & 0xFFF) | (uint32_t(s.type) << 12) | (s.flags << 16));
				o.u32(s.file);
				o.u32(s.line);
				o.u32(s.lines);
				o.u32(s.chr);
				o.u32(s.chrs);
				if (!s.member()) {
					switch (s.type) {
					case FLOAT: for (uint32_t i = 0; i < s.count; ++i) o.f32(i < s.floats.size() ? s.floats[i] : 0); break;
					case INT: for (uint32_t i = 0; i < s.count; ++i) o.u32(i < s.ints.size() ? (uint32_t) s.ints[i] : 0); break;
					case STRING: for (uint32_t i = 0; i < s.count; ++i) o.line(i < s.strings.size() ? s.strings[i] : ""); break;
					case CLASS: o.u32((uint32_t) s.class_offset); break;
					case INSTANCE: case FUNCTION: case PROTOTYPE: o.u32((uint32_t) s.address); break;
					default: break;
					}
				}
				o.b.insert(o.b.end(), s.stray.begin(), s.stray.end());
				o.u32((uint32_t) s.parent);
			}
			o.u32((uint32_t) code.size());
			o.b.insert(o.b.end(), code.begin(), code.end());
			return o.b;
		}

		/// The table sorted by name, as the compiler stores it.
		void make_sort() {
			sort.resize(syms.size());
			for (size_t i = 0; i < sort.size(); ++i) sort[i] = (uint32_t) i;
			std::stable_sort(sort.begin(), sort.end(), [&](uint32_t a, uint32_t b) { return syms[a].name < syms[b].name; });
		}
	};

	using Op = zenkit::DaedalusOpcode;

	struct Code : Bytes {
		uint32_t here() const { return (uint32_t) b.size(); }
		void op(Op o) { u8((uint8_t) o); }
		void op(Op o, uint32_t arg) { u8((uint8_t) o); u32(arg); }
		void pushvv(uint32_t sym, uint32_t idx) { u8((uint8_t) Op::PUSHVV); u32(sym); u8(idx); }
		uint32_t hole(Op o) { u8((uint8_t) o); u32(0); return here() - 4; }
		void fill(uint32_t at, uint32_t v) { for (int i = 0; i < 4; ++i) b[at + i] = (uint8_t) (v >> (8 * i)); }
	};

	inline void load(zenkit::DaedalusScript& s, std::vector<uint8_t> const& bytes) {
		auto r = zenkit::Read::from((std::byte const*) bytes.data(), bytes.size());
		s.load(r.get());
	}
} // namespace dat
