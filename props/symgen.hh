// Symbol tables of compiled scripts.
#pragma once
#include "datgen.hh"

namespace dat {
	// values of the documented bit fields
	inline uint32_t small(pbt::Src& s, uint32_t max) { return s.chance(1, 6) ? max : s.chance(1, 4) ? s.u32() & max : s.below(200); }

	inline std::string text(pbt::Src& s) {
		std::string o;
		static char const* bits[] = {"a", "B", " ", "\\n", "\\t", "\\", "\\\\", "\t", "\xC4", "\xFF", "n", "t", "0", ".", "\"", "#", "  "};
		for (size_t n = s.len(8); n > 0; --n) o += bits[s.below(std::size(bits))];
		if (s.chance(1, 25)) o += std::string(s.below(300), 'x');
		return o;
	}

	struct Gen {
		pbt::Src& s;
		Image im;
		std::set<std::string> used;
		std::vector<std::string> bases;
		std::vector<uint32_t> classes, prototypes;
		std::set<int32_t> addresses;
		// function -> {parameters, locals}
		struct Fn { uint32_t sym, params, locals; };
		std::vector<Fn> fns;
		uint32_t unnamed = 0;

		std::string name(std::string const& prefix = "") {
			static char const alpha[] = "ABCXYZ_0189";
			for (;;) {
				std::string n = prefix;
				// names that extend one another are the interesting ones
				if (prefix.empty() && !bases.empty() && s.chance(1, 3)) n += s.pick(bases);
				else n += s.chance(1, 12) ? '\xC4' : "ABCXYZ_"[s.below(7)];
				for (size_t k = s.len(4); k > 0; --k) n += alpha[s.below(sizeof alpha - 1)];
				while (used.count(n)) n += alpha[s.below(sizeof alpha - 1)];
				used.insert(n);
				if (prefix.empty()) bases.push_back(n);
				return n;
			}
		}
		int32_t address() {
			for (;;) {
				int32_t a = s.chance(1, 8) ? (int32_t) (s.u32() & 0x7FFFFFFF) : (int32_t) s.below(5000);
				while (addresses.count(a)) a = (a + 1) & 0x7FFFFFFF;
				addresses.insert(a);
				return a;
			}
		}
		Sym base(std::string n, Type t, uint32_t flags) {
			Sym y;
			y.name = std::move(n);
			y.type = t;
			y.flags = flags | (s.chance(1, 8) ? MERGED : 0);
			y.vary = s.chance(1, 2) ? 0 : s.u32();
			y.file = small(s, 0x7FFFF);
			y.line = small(s, 0x7FFFF);
			y.lines = small(s, 0x7FFFF);
			y.chr = small(s, 0xFFFFFF);
			y.chrs = small(s, 0xFFFFFF);
			return y;
		}
		uint32_t add(Sym y) {
			im.syms.push_back(std::move(y));
			return (uint32_t) im.syms.size() - 1;
		}
		void value(Sym& y, bool one) {
			y.count = one ? 1 : s.chance(1, 20) ? s.below(4096) : s.chance(1, 2) ? 1 : s.below(6);
			for (uint32_t i = 0; i < y.count; ++i) {
				if (y.type == INT) y.ints.push_back(y.count > 100 ? (int32_t) (i * 7919) : s.i32());
				if (y.type == FLOAT) y.floats.push_back(y.count > 100 ? (float) i * 0.5f : s.nice());
				if (y.type == STRING) y.strings.push_back(y.count > 100 ? "s" + std::to_string(i) : text(s));
			}
		}
		int32_t parent() {
			if (im.syms.empty() || s.chance(2, 3)) return -1;
			if (s.chance(1, 3)) return s.chance(1, 2) ? 32 : 9 + (int32_t) s.below(5);
			return (int32_t) s.below((uint32_t) im.syms.size());
		}
		Type scalar() { return (Type) s.pick(std::vector<int> {INT, FLOAT, STRING}); }
		void variable(std::string n, uint32_t flags) {
			switch (s.weighted({6, 1, 1})) {
			case 0: {
				auto y = base(std::move(n), scalar(), flags);
				value(y, false);
				y.parent = parent();
				if (y.type == STRING && (y.flags & CONST) && y.parent == -1 && s.chance(1, 4))
					for (auto n = 1 + s.below(4); n > 0; --n) y.stray += s.pick(std::vector<char> {' ', '\n', '\r', '\t'});
				add(std::move(y));
				break;
			}
			case 1: {
				auto y = base(std::move(n), INSTANCE, 0); // a reference to an instance
				y.address = -1;
				if (!classes.empty() && s.chance(2, 3)) y.parent = (int32_t) s.pick(classes);
				add(std::move(y));
				break;
			}
			default: {
				auto y = base(std::move(n), FUNCTION, 0); // a reference to a function
				y.vary = s.below(4);
				y.address = -1;
				add(std::move(y));
			}
			}
		}
		void function() {
			bool ext = s.chance(1, 3);
			auto y = base(name(), FUNCTION, CONST | (ext ? EXTERNAL : 0));
			y.vary = s.pick(std::vector<uint32_t> {VOID, VOID, INT, FLOAT, STRING, INSTANCE});
			if (y.vary != VOID) y.flags |= RETURN;
			y.count = s.len(4);
			y.address = ext ? -1 : address();
			auto nm = y.name;
			Fn f {0, y.count, 0};
			f.sym = add(std::move(y));
			for (uint32_t i = 0; i < f.params; ++i) {
				auto p = base(name(nm + "."), (Type) s.pick(std::vector<int> {INT, FLOAT, STRING, INSTANCE, FUNCTION}), 0);
				value(p, true);
				if (p.type == FUNCTION) p.vary = 0;
				add(std::move(p));
			}
			if (!ext) {
				f.locals = s.len(3);
				for (uint32_t i = 0; i < f.locals; ++i) variable(name(nm + "."), s.chance(1, 3) ? CONST : 0);
			}
			fns.push_back(f);
		}
		void klass() {
			auto y = base(name(), CLASS, 0);
			y.count = s.len(4);
			y.vary = small(s, 0xFFFFF);
			y.class_offset = (int32_t) s.below(400);
			auto nm = y.name;
			uint32_t n = y.count, c = add(std::move(y));
			classes.push_back(c);
			for (uint32_t i = 0; i < n; ++i) {
				auto m = base(name(nm + "."), (Type) s.pick(std::vector<int> {INT, FLOAT, STRING, FUNCTION}), MEMBER);
				m.count = s.chance(1, 10) ? s.below(4096) : 1 + s.below(5);
				m.vary = s.below(5000);
				m.parent = (int32_t) c;
				add(std::move(m));
			}
		}
		void object() {
			bool proto = s.chance(1, 3);
			auto y = base(name(), proto ? PROTOTYPE : INSTANCE, proto ? (s.flip() ? CONST : 0) : CONST);
			y.count = 0;
			y.address = address();
			if (!proto && !prototypes.empty() && s.flip()) y.parent = (int32_t) s.pick(prototypes);
			else if (!classes.empty() && s.chance(9, 10)) y.parent = (int32_t) s.pick(classes);
			auto i = add(std::move(y));
			if (proto) prototypes.push_back(i);
		}
		void generated() {
			auto y = base("\xFF" + std::to_string(10000 + s.below(1000)), STRING, CONST);
			while (used.count(y.name)) y.name += "1";
			used.insert(y.name);
			value(y, true);
			y.parent = parent();
			add(std::move(y));
		}
		void anonymous() {
			auto y = base("", INT, 0);
			y.named = false;
			value(y, false);
			add(std::move(y));
			++unnamed;
		}
	};


	inline void table(pbt::Src& s, Gen& g, size_t max = 14) {
		g.im.version = s.u8();
		for (size_t n = 1 + s.len(max); n > 0; --n) {
			switch (s.weighted({3, 4, 2, 3, 2, 1})) {
			case 0: g.variable(g.name(), s.chance(1, 3) ? CONST : 0); break;
			case 1: g.function(); break;
			case 2: g.klass(); break;
			case 3: g.object(); break;
			case 4: g.generated(); break;
			default: g.anonymous();
			}
		}
	}
} // namespace dat
