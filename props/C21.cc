// C21: compiled scripts load every symbol as stored and every lookup finds exactly what the file defines.
#include "symgen.hh"
using namespace zenkit;
using dat::Sym;

namespace {
	using dat::Gen;
	std::string mixed(pbt::Src& s, std::string n) {
		int how = (int) s.below(3);
		for (auto& c : n)
			if (c >= 'A' && c <= 'Z' && (how == 1 || (how == 2 && s.flip()))) c = (char) (c - 'A' + 'a');
		return n;
	}

	void table(pbt::Case& k) {
		auto& s = k.src;
		Gen g {s, {}, {}, {}, {}, {}, {}, {}, 0};
		dat::table(s, g);
		g.im.code = s.bytes(40);
		g.im.make_sort();
		auto const& S = g.im.syms;
		k.log << S.size() << " symbols:";
		for (size_t i = 0; i < S.size() && i < 60; ++i) k.log << " " << i << ":" << pbt::quote(S[i].shown()) << "/t" << S[i].type << "f" << S[i].flags << "n" << S[i].count << "p" << S[i].parent;
		k.log << "\n";
		if (g.fns.size() + g.classes.size() + g.prototypes.size() >= 2 && S.size() >= 5) k.nontrivial();
		k.tag(g.fns.empty() ? "no functions" : "functions");

		auto bytes = g.im.encode();
		DaedalusScript sc;
		try {
			dat::load(sc, bytes);
		} catch (std::exception const& e) {
			pbt::fail("load", std::string("a well-formed script is refused: ") + e.what());
		}
		CHECK("count", sc.symbols().size() == S.size(), sc.symbols().size() << " symbols, " << S.size() << " stored");
		CHECK("code-size", sc.size() == g.im.code.size(), "code size " << sc.size() << ", " << g.im.code.size() << " stored");

		auto const& cs = sc;
		for (uint32_t i = 0; i < S.size(); ++i) {
			auto const& e = S[i];
			auto* y = sc.find_symbol_by_index(i);
			CHECK("by-index", y != nullptr && y == &sc.symbols()[i] && cs.find_symbol_by_index(i) == y, "symbol " << i << " not found by index");
			std::ostringstream w;
			w << "symbol " << i << " (" << pbt::quote(e.shown()) << ")";
#define FIELD(what, a, b) CHECK("symbol-" what, (a) == (b), w.str() << ": " what " is " << (a) << ", stored " << (b))
			FIELD("index", y->index(), i);
			FIELD("name", y->name(), e.shown());
			FIELD("type", (uint32_t) y->type(), (uint32_t) e.type);
			FIELD("count", y->count(), e.count);
			FIELD("const", y->is_const(), bool(e.flags & dat::CONST));
			FIELD("member", y->is_member(), bool(e.flags & dat::MEMBER));
			FIELD("external", y->is_external(), bool(e.flags & dat::EXTERNAL));
			FIELD("merged", y->is_merged(), bool(e.flags & dat::MERGED));
			FIELD("return", y->has_return(), bool(e.flags & dat::RETURN));
			FIELD("generated", y->is_generated(), bool(!e.name.empty() && e.name[0] == '\xFF'));
			FIELD("trap", y->has_access_trap(), false);
			FIELD("stash", y->has_local_variables_enabled(), false);
			FIELD("file", y->file_index(), e.file);
			FIELD("line", y->line_start(), e.line);
			FIELD("lines", y->line_count(), e.lines);
			FIELD("char", y->char_start(), e.chr);
			FIELD("chars", y->char_count(), e.chrs);
			FIELD("parent", (int32_t) y->parent(), e.parent);
			if (e.member()) FIELD("offset", y->offset_as_member(), e.vary);
			else if (e.type == dat::CLASS) FIELD("class-size", y->class_size(), e.vary);
			else if (e.type == dat::FUNCTION) FIELD("return-type", (uint32_t) y->rtype(), e.vary);
			if (!e.member()) {
				if (e.type == dat::FUNCTION || e.type == dat::INSTANCE || e.type == dat::PROTOTYPE) FIELD("address", (int32_t) y->address(), e.address);
				for (uint32_t j = 0; j < e.count; ++j) {
					if (e.type == dat::INT) FIELD("integer", y->get_int((uint16_t) j), e.ints[j]);
					if (e.type == dat::FLOAT) CHECK("symbol-float", std::memcmp(&e.floats[j], std::array {y->get_float((uint16_t) j)}.data(), 4) == 0, w.str() << ": element " << j << " is " << y->get_float((uint16_t) j) << ", stored " << e.floats[j]);
					if (e.type == dat::STRING) {
						auto x = dat::unescape(e.strings[j]);
						CHECK("symbol-string", y->get_string((uint16_t) j) == x, w.str() << ": element " << j << " is " << pbt::quote(y->get_string((uint16_t) j)) << ", stored " << pbt::quote(x));
					}
				}
				if (e.type == dat::INSTANCE) CHECK("symbol-instance", y->get_instance() == nullptr, w.str() << " refers to an instance already");
			}
#undef FIELD
			// accesses of another type or beyond the end are refused
			auto refused = [&](char const* what, auto f) {
				try {
					f();
				} catch (DaedalusScriptError const&) {
					return;
				}
				pbt::fail("misuse-accepted", w.str() + ": " + what + " is not refused");
			};
			if (!e.member()) {
				if (e.type != dat::INT && e.type != dat::FUNCTION) refused("reading an integer", [&] { (void) y->get_int(0); });
				if (e.type != dat::FLOAT) refused("reading a float", [&] { (void) y->get_float(0); });
				if (e.type != dat::STRING) refused("reading a string", [&] { (void) y->get_string(0); });
				if (e.type != dat::INSTANCE) refused("reading an instance", [&] { (void) y->get_instance(); });
				if (e.type == dat::INT) refused("reading beyond the end", [&] { (void) y->get_int((uint16_t) e.count); });
				if (e.type == dat::FLOAT) refused("reading beyond the end", [&] { (void) y->get_float((uint16_t) e.count); });
				if (e.type == dat::STRING) refused("reading beyond the end", [&] { (void) y->get_string((uint16_t) e.count); });
				if (e.type == dat::FUNCTION && (e.flags & dat::CONST)) refused("reading a function's value", [&] { (void) y->get_int(0); });
			}
			if (e.named) {
				auto q = mixed(s, e.shown());
				CHECK("by-name", sc.find_symbol_by_name(q) == y && cs.find_symbol_by_name(q) == y, w.str() << " is not found as " << pbt::quote(q));
			}
			bool code = !e.member() && (e.type == dat::PROTOTYPE || ((e.type == dat::INSTANCE || e.type == dat::FUNCTION) && (e.flags & dat::CONST) && !(e.flags & dat::EXTERNAL)));
			if (code) CHECK("by-address", sc.find_symbol_by_address((uint32_t) e.address) == y && cs.find_symbol_by_address((uint32_t) e.address) == y, w.str() << " is not found by its address " << e.address);
		}

		// absent keys
		for (uint32_t i : {(uint32_t) S.size(), (uint32_t) (S.size() + s.below(1000)), 0xFFFFFFFFu})
			CHECK("absent-index", sc.find_symbol_by_index(i) == nullptr && cs.find_symbol_by_index(i) == nullptr, "a symbol is found at index " << i);
		for (int n = 0; n < 6; ++n) {
			auto a = (int32_t) s.below(6000);
			if (!g.addresses.count(a)) CHECK("absent-address", sc.find_symbol_by_address((uint32_t) a) == nullptr && cs.find_symbol_by_address((uint32_t) a) == nullptr, "a symbol is found at address " << a);
			std::string nm = S[s.below((uint32_t) S.size())].shown();
			switch (s.below(4)) {
			case 0: nm += "A"; break;
			case 1: if (nm.size() > 1) nm.pop_back(); break;
			case 2: nm += " "; break;
			default: nm = s.ident(6); for (auto& c : nm) c = (char) std::toupper(c);
			}
			std::string stored = nm;
			if (!stored.empty() && stored[0] == '$') stored[0] = '\xFF';
			if (!nm.empty() && !g.used.count(stored)) CHECK("absent-name", sc.find_symbol_by_name(nm) == nullptr && cs.find_symbol_by_name(nm) == nullptr, "a symbol is found as " << pbt::quote(nm));
		}

		for (auto& f : g.fns) {
			auto* y = sc.find_symbol_by_index(f.sym);
			auto p = sc.find_parameters_for_function(y);
			auto cp = cs.find_parameters_for_function(y);
			CHECK("parameters", p.size() == f.params && cp.size() == f.params, "function " << f.sym << " has " << p.size() << " parameters, defined " << f.params);
			for (uint32_t i = 0; i < f.params; ++i) CHECK("parameters", p[i].index() == f.sym + 1 + i && cp[i].index() == f.sym + 1 + i, "parameter " << i << " of function " << f.sym << " is symbol " << p[i].index());
			if (S[f.sym].flags & dat::EXTERNAL) continue;
			auto l = sc.find_locals_for_function(y);
			CHECK("locals", l.size() == f.locals, "function " << f.sym << " has " << l.size() << " local variables, defined " << f.locals);
			for (uint32_t i = 0; i < f.locals; ++i) CHECK("locals", l[i].index() == f.sym + 1 + f.params + i, "local variable " << i << " of function " << f.sym << " is symbol " << l[i].index());
		}
		for (auto c : g.classes) {
			std::vector<uint32_t> want, got;
			std::set<uint32_t> protos;
			for (uint32_t i = 0; i < S.size(); ++i) {
				if (S[i].type == dat::PROTOTYPE && S[i].parent == (int32_t) c) protos.insert(i);
				if (S[i].type == dat::INSTANCE && (S[i].flags & dat::CONST) && (S[i].parent == (int32_t) c || (S[i].parent >= 0 && protos.count((uint32_t) S[i].parent)))) want.push_back(i);
			}
			sc.enumerate_instances_by_class_name(mixed(s, S[c].name), [&](DaedalusSymbol& y) { got.push_back(y.index()); });
			CHECK("instances", got == want, "class " << c << ": " << got.size() << " instances enumerated, " << want.size() << " defined");
			auto m = sc.find_class_members(*sc.find_symbol_by_index(c));
			want.clear();
			for (uint32_t i = 0; i < S.size(); ++i)
				if (S[i].member() && S[i].parent == (int32_t) c) want.push_back(i);
			CHECK("members", m.size() == want.size(), "class " << c << " has " << m.size() << " members, defined " << want.size());
			for (size_t i = 0; i < want.size(); ++i) CHECK("members", m[i]->index() == want[i], "member " << i << " of class " << c << " is symbol " << m[i]->index());
		}
		size_t called = 0;
		sc.enumerate_instances_by_class_name("NO SUCH CLASS", [&](DaedalusSymbol&) { ++called; });
		CHECK("instances", called == 0, "instances of an absent class");
	}

	/// Arrays which are made longer keep what they hold; what is added is zero or empty.
	void grow(pbt::Case& k) {
		auto& s = k.src;
		dat::Image im;
		int kind = (int) s.below(3);
		Sym y;
		y.name = "X", y.type = kind == 0 ? dat::INT : kind == 1 ? dat::FLOAT : dat::STRING, y.count = 1 + s.below(kind == 2 ? 20 : 300), y.vary = 0;
		for (uint32_t i = 0; i < y.count; ++i) {
			if (kind == 0) y.ints.push_back(s.i32());
			if (kind == 1) y.floats.push_back(s.finite());
			if (kind == 2) y.strings.push_back(s.ident(s.len(40)));
		}
		auto other = y;
		other.name = "Y";
		// what holds no values of its own: a function with parameters, a class and its member
		Sym fn, cls, member;
		fn.name = "F", fn.type = dat::FUNCTION, fn.flags = dat::CONST, fn.count = s.below(3), fn.address = 0;
		cls.name = "C", cls.type = dat::CLASS, cls.count = 1, cls.vary = 4;
		member.name = "C.M", member.type = kind == 0 ? dat::INT : kind == 1 ? dat::FLOAT : dat::STRING, member.flags = dat::MEMBER, member.count = 1 + s.below(3), member.parent = 3;
		im.syms = {y, other, fn, cls, member};
		im.code = {60};
		im.make_sort();
		auto bytes = im.encode();
		DaedalusScript sc;
		dat::load(sc, bytes);
		auto ints = y.ints;
		auto floats = y.floats;
		auto strings = y.strings;
		uint32_t count = y.count;
		auto *x = sc.find_symbol_by_name("X"), *z = sc.find_symbol_by_name("Y");
		auto compare = [&](DaedalusSymbol* q, uint32_t n) {
			CHECK("grow-count", q->count() == n, q->name() << " has " << q->count() << " elements instead of " << n);
			for (uint32_t i = 0; i < n; ++i) {
				if (kind == 0) CHECK("grow-value", q->get_int((uint16_t) i) == (q == x ? ints : y.ints)[i], "element " << i << " of " << q->name() << " is " << q->get_int((uint16_t) i));
				if (kind == 1) CHECK("grow-value", q->get_float((uint16_t) i) == (q == x ? floats : y.floats)[i], "element " << i << " of " << q->name() << " is " << q->get_float((uint16_t) i));
				if (kind == 2) CHECK("grow-value", q->get_string((uint16_t) i) == (q == x ? strings : y.strings)[i], "element " << i << " of " << q->name() << " is " << pbt::quote(q->get_string((uint16_t) i)));
			}
		};
		size_t steps = 1 + s.len(5);
		k.log << "array of kind " << kind << " with " << count << " elements;";
		k.nontrivial();
		while (steps--) {
			uint32_t n = s.below(kind == 2 ? 30 : 400);
			k.log << " +" << n;
			x->grow(n);
			count += n;
			ints.resize(count), floats.resize(count), strings.resize(count);
			compare(x, count), compare(z, y.count);
			uint32_t at = s.below(count);
			if (kind == 0) x->set_int(ints[at] = s.i32(), (uint16_t) at);
			if (kind == 1) x->set_float(floats[at] = s.finite(), (uint16_t) at);
			if (kind == 2) x->set_string(strings[at] = s.ident(5), (uint16_t) at);
			compare(x, count);
			bool refused = false;
			try {
				if (kind == 0) x->set_int(1, (uint16_t) count);
				if (kind == 1) x->set_float(1, (uint16_t) count);
				if (kind == 2) x->set_string("", (uint16_t) count);
			} catch (DaedalusScriptError const&) { refused = true; }
			CHECK("grow-end", refused, "an element beyond the end was written");
		}
		k.log << "\n";
		for (auto* e : {&fn, &cls, &member}) {
			bool refused = false;
			auto* f = sc.find_symbol_by_name(e->name);
			try { f->grow(3); } catch (DaedalusScriptError const&) { refused = true; }
			CHECK("grow-other", refused && f->count() == e->count, e->name << ", which holds no values, has become longer");
		}
	}

	void instructions(pbt::Case& k) {
		auto& s = k.src;
		static std::vector<int> const plain {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 45, 60, 70, 71, 72, 73, 74};
		static std::vector<int> const addr {61, 75, 76}, symb {62, 65, 67, 80};
		struct I { uint32_t at; int op; uint32_t address = 0, symbol = 0; int32_t imm = 0; uint8_t index = 0, size = 1; };
		std::vector<I> all;
		dat::Image im;
		dat::Code c;
		for (size_t n = 1 + s.len(40); n > 0; --n) {
			I i {c.here(), 0};
			switch (s.weighted({4, 3, 2, 3, 2})) {
			case 0: i.op = s.pick(plain); c.u8((uint32_t) i.op); break;
			case 1: i.op = s.pick(addr); i.address = s.u32(); i.size = 5; c.u8((uint32_t) i.op); c.u32(i.address); break;
			case 2: i.op = 64; i.imm = s.i32(); i.size = 5; c.u8(64); c.u32((uint32_t) i.imm); break;
			case 3: i.op = s.pick(symb); i.symbol = s.u32(); i.size = 5; c.u8((uint32_t) i.op); c.u32(i.symbol); break;
			default: i.op = 245; i.symbol = s.u32(); i.index = s.u8(); i.size = 6; c.u8(245); c.u32(i.symbol); c.u8(i.index);
			}
			all.push_back(i);
		}
		if (s.chance(1, 100)) { // sizes above 16 bits
			for (uint32_t n = 65536 + (uint32_t) s.below(100); n > 0; --n) c.u8(60);
			all.push_back({c.here(), 61, 0x12345678, 0, 0, 0, 5});
			c.u8(61), c.u32(0x12345678);
		}
		im.code = c.b;
		if (s.flip()) {
			Sym y;
			y.name = "X";
			y.ints = {1};
			im.syms.push_back(y);
		}
		k.log << all.size() << " instructions:";
		for (auto& i : all) k.log << " " << i.op;
		k.log << "\n";
		if (all.size() >= 4) k.nontrivial();
		auto bytes = im.encode();
		DaedalusScript sc;
		dat::load(sc, bytes);
		auto look = [&](I const& i) {
			auto d = sc.instruction_at(i.at);
			CHECK("instruction", (int) d.op == i.op && d.size == i.size && d.address == i.address && d.symbol == i.symbol && d.immediate == i.imm && d.index == i.index,
			      "instruction at " << i.at << ": opcode " << (int) d.op << " size " << (int) d.size << " address " << d.address << " symbol " << d.symbol << " immediate " << d.immediate << " index " << (int) d.index << "; stored opcode " << i.op << " size " << (int) i.size << " address " << i.address << " symbol " << i.symbol << " immediate " << i.imm << " index " << (int) i.index);
		};
		for (auto& i : all) look(i);
		for (int n = 0; n < 6; ++n) {
			look(s.pick(all));
			if (s.flip()) CHECK("code-size", sc.size() == im.code.size(), "code size " << sc.size() << ", stored " << im.code.size());
		}
	}
}

int main(int argc, char** argv) {
	pbt::Config cfg {"C21", "table: at least five symbols with two functions, classes or prototypes; instructions: at least four; grow: always",
		{"names are stored in upper case and once only, as the compiler writes them; instance and function variables carry no address; prototypes precede the instances made from them"},
		{{"table", 30000, 20, table}, {"instructions", 15000, 20, instructions}, {"grow", 6000, 10, grow}}};
	return pbt::main(argc, argv, cfg);
}
