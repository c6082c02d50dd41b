// Byte code which no compiler would produce: whatever it does, only script errors leave the VM and the
// caller finds the stack, position and current instance as they were.
#pragma once
#include "datgen.hh"

namespace chaos {
	using namespace zenkit;
	struct Bound : DaedalusInstance { int32_t i = 0; float f[3] {}; std::string s; };

	inline void run(pbt::Case& k) {
		using namespace dat;
		auto& s = k.src;
		Image im;
		auto add = [&](std::string n, Type t, uint32_t flags, uint32_t count = 1) -> Sym& {
			Sym y; y.name = n; y.type = t; y.flags = flags; y.count = count;
			im.syms.push_back(y);
			return im.syms.back();
		};
		// 0: an opaque class, 6: a class bound to a host class
		add("CO", CLASS, 0, 5);
		add("CO.I", INT, MEMBER, 2).parent = 0; add("CO.F", FLOAT, MEMBER, 1).parent = 0; add("CO.S", STRING, MEMBER, 2).parent = 0;
		add("CO.P", FUNCTION, MEMBER, 1).parent = 0; add("CO.X", INSTANCE, MEMBER, 0).parent = 0;
		add("CB", CLASS, 0, 4);
		add("CB.I", INT, MEMBER, 1).parent = 6; add("CB.F", FLOAT, MEMBER, 3).parent = 6; add("CB.S", STRING, MEMBER, 1).parent = 6; add("CB.U", INT, MEMBER, 1).parent = 6;
		static const Type T[] = {INT, FLOAT, STRING, FUNCTION, INSTANCE};
		for (size_t n = 3 + s.below(6), i = 0; i < n; ++i) {
			auto t = T[s.below(5)];
			add("V" + std::to_string(i), t, s.chance(1, 4) && t != INSTANCE ? CONST : 0, t == INSTANCE ? 0 : s.chance(1, 3) ? 1 + (uint32_t) s.below(4) : 1).parent = t == INSTANCE ? (s.flip() ? 0 : 6) : -1;
		}
		if (s.flip()) add("SELF", INSTANCE, 0, 0).parent = 0;
		uint32_t io = (uint32_t) im.syms.size(), ib = io + 1, pr = io + 2;
		add("IO", INSTANCE, CONST, 0).parent = 0;
		add("IB", INSTANCE, CONST, 0).parent = 6;
		add("PR", PROTOTYPE, CONST, 0).parent = 0;
		struct Fn { uint32_t sym; bool ext; int bind; };
		std::vector<Fn> fns;
		for (size_t n = 2 + s.below(5), i = 0; i < n; ++i) {
			Fn f {(uint32_t) im.syms.size(), s.chance(1, 3), 0};
			auto np = (uint32_t) s.below(3);
			auto ret = s.chance(1, 3) ? VOID : T[s.below(5)];
			if (f.ext && s.flip()) { // one of the bindings below
				f.bind = 1 + (int) s.below(3);
				np = f.bind == 1 ? 0 : f.bind == 2 ? 1 : 2;
				ret = f.bind == 1 ? VOID : f.bind == 2 ? STRING : INT;
			}
			add((f.ext ? "EX" : "FN") + std::to_string(i), FUNCTION, CONST | (ret ? RETURN : 0u) | (f.ext ? EXTERNAL : 0u), np).vary = ret;
			auto name = im.syms.back().name;
			for (uint32_t p = 0; p < np; ++p) add(name + ".P" + std::to_string(p), f.bind == 2 ? STRING : f.bind == 3 ? (p ? FLOAT : INSTANCE) : T[s.below(5)], 0, 1).parent = -1;
			fns.push_back(f);
		}
		// code, the last function first so that calls only lead to later functions
		Code c;
		im.syms[io].address = im.syms[ib].address = im.syms[pr].address = 0;
		c.op(Op::RSR);
		struct Slot { uint32_t at; size_t fn; };
		std::vector<Slot> calls;
		std::vector<uint32_t> addr(fns.size(), 0xFFFFFFFF);
		std::ostringstream src;
		static const Op simple[] = {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::MOD, Op::OR, Op::ANDB, Op::LT, Op::GT, Op::MOVI, Op::ORR, Op::AND, Op::LTE, Op::EQ, Op::NEQ, Op::GTE, Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI, Op::PLUS, Op::NEGATE, Op::NOT, Op::CMPL, Op::NOP, Op::RSR, Op::MOVS, Op::MOVSS, Op::MOVVF, Op::MOVF, Op::MOVVI};
		for (size_t i = 0; i < fns.size(); ++i) {
			if (fns[i].ext) continue;
			im.syms[fns[i].sym].address = (int32_t) c.here();
			addr[i] = c.here();
			src << im.syms[fns[i].sym].name << "/" << im.syms[fns[i].sym].count << ":" << im.syms[fns[i].sym].vary << ":";
			std::vector<uint32_t> jumps, starts;
			for (size_t n = s.len(30); n > 0; --n) {
				starts.push_back(c.here());
				auto sym = [&] { return s.chance(1, 25) ? (uint32_t) im.syms.size() + 1 + (s.flip() ? (uint32_t) s.below(3) : 0x7FFFFFF0u) : (uint32_t) s.below(im.syms.size()); };
				switch (s.weighted({8, 12, 3, 3, 2, 2, 3, 3, 2})) {
				case 0: { auto o = simple[s.below(std::size(simple))]; c.op(o); src << " " << (int) o; break; }
				case 1: { auto y = sym(); c.op(s.flip() ? Op::PUSHV : Op::PUSHVI, y); src << " pushv " << (y < im.syms.size() ? im.syms[y].name : "?"); break; }
				case 2: { auto v = (uint32_t) (s.flip() ? (int32_t) s.below(im.syms.size()) : s.i32()); c.op(Op::PUSHI, v); src << " pushi " << (int32_t) v; break; }
				case 3: { auto y = sym(); auto ix = (uint32_t) s.below(s.chance(1, 4) ? 256 : 4); c.pushvv(y, ix); src << " pushvv " << (y < im.syms.size() ? im.syms[y].name : "?") << "[" << ix << "]"; break; }
				case 4: { auto y = s.flip() ? s.pick(std::vector<uint32_t> {io, ib}) : sym(); c.op(Op::GMOVI, y); src << " gmovi " << (y < im.syms.size() ? im.syms[y].name : "?"); break; }
				case 5: src << " jump"; jumps.push_back(c.hole(s.flip() ? Op::B : Op::BZ)); break;
				case 6: {
					std::vector<uint32_t> e;
					for (auto& f : fns) if (f.ext) e.push_back(f.sym);
					auto y = e.empty() || s.chance(1, 10) ? sym() : s.pick(e);
					if (y < im.syms.size() && im.syms[y].type != FUNCTION && im.syms[y].type != INSTANCE && im.syms[y].type != PROTOTYPE) y = 0x7FFFFFFF; // the parameters of a variable make no sense
					c.op(Op::BE, y);
					src << " be " << (y < im.syms.size() ? im.syms[y].name : "?");
					break;
				}
				case 7: {
					auto to = i + 1 + s.below(fns.size());
					calls.push_back({c.hole(Op::BL), to});
					src << " bl " << (to < fns.size() ? im.syms[fns[to].sym].name : "?");
					break;
				}
				case 8: { auto o = s.pick(std::vector<Op> {Op::MOVI, Op::MOVF, Op::MOVS, Op::MOVVI, Op::MOVVF, Op::ADDMOVI}); c.op(o); src << " mov " << (int) o; break; }
				}
			}
			src << "\n";
			starts.push_back(c.here());
			c.op(Op::RSR);
			for (auto j : jumps) { // only forward
				std::vector<uint32_t> to;
				for (auto x : starts) if (x > j) to.push_back(x);
				c.fill(j, s.chance(1, 20) ? 0x100000u + s.u8() : s.pick(to));
			}
		}
		for (auto& x : calls) c.fill(x.at, x.fn < fns.size() && addr[x.fn] != 0xFFFFFFFF ? addr[x.fn] : s.flip() ? c.here() + 10 : 0);
		im.code = c.b;
		im.make_sort();

		DaedalusScript script;
		dat::load(script, im.encode());
		DaedalusVm vm {std::move(script), (uint8_t) (s.chance(1, 3) ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0)};
		vm.register_as_opaque("CO");
		vm.register_member("CB.I", &Bound::i);
		vm.register_member("CB.F", &Bound::f);
		vm.register_member("CB.S", &Bound::s);
		vm.init_opaque_instance(vm.find_symbol_by_index(io));
		vm.init_instance<Bound>("IB");
		for (auto& f : fns) {
			auto n = im.syms[f.sym].name;
			if (f.bind == 1) vm.register_external(n, [] {});
			if (f.bind == 2) vm.register_external(n, [](std::string_view v) { return std::string(v) + "x"; });
			if (f.bind == 3) vm.register_external(n, [](std::shared_ptr<DaedalusInstance> p, float v) { return (p ? 1 : 0) + (v > 0 ? 1 : 0); });
		}
		if (s.flip()) vm.register_default_external([](std::string_view) {});
		auto mode = s.below(4);
		int errors = 0;
		std::vector<uint8_t> plan;
		if (mode == 3) for (size_t i = 0; i < 8; ++i) plan.push_back((uint8_t) s.below(3));
		if (mode == 1) vm.register_exception_handler(lenient_vm_exception_handler);
		if (mode == 2) vm.register_exception_handler([&](DaedalusVm& v, DaedalusScriptError const&, DaedalusInstruction const&) { ++errors; v.print_stack_trace(); return DaedalusVmExceptionStrategy::CONTINUE; });
		if (mode == 3) vm.register_exception_handler([&](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return (DaedalusVmExceptionStrategy) plan[(size_t) errors++ % plan.size()]; });
		k.log << "handler " << mode << "\n" << src.str();
		size_t height = s.below(4);
		for (size_t i = 0; i < height; ++i) vm.push_int((int32_t) i);
		auto gi = s.flip() ? vm.find_symbol_by_index(s.flip() ? io : ib)->get_instance() : nullptr;
		vm.unsafe_set_gi(gi);
		int ok = 0, bad = 0;
		for (size_t n = 1 + s.len(5); n > 0; --n) {
			auto& f = fns[s.below(fns.size())];
			auto& y = im.syms[f.sym];
			if (f.ext) continue;
			auto* sym = vm.find_symbol_by_index(f.sym);
			k.log << "call " << y.name << "\n";
			bool done = true;
			for (uint32_t p = 0; p < y.count; ++p) {
				auto t = im.syms[f.sym + 1 + p].type;
				if (t == FLOAT) vm.push_float(1.5f);
				else if (t == STRING) vm.push_string("arg");
				else if (t == INSTANCE) vm.push_instance(gi);
				else vm.push_int((int32_t) f.sym);
			}
			try {
				vm.unsafe_call(sym);
				++ok;
			} catch (DaedalusScriptError const&) {
				++bad;
				done = false;
			}
			// a function with a result leaves exactly that
			if (done && y.vary) {
				CHECK("result-missing", [&] { try { (void) vm.top_is_reference(); return true; } catch (DaedalusScriptError const&) { return false; } }(), "no result");
				try { (void) vm.pop_int(); } catch (DaedalusScriptError const&) {} // of whatever type
			}
			CHECK("position", vm.pc() == 0, "the position is " << vm.pc());
			CHECK("instance", vm.unsafe_get_gi() == gi, "the current instance changed");
		}
		size_t left = 0;
		while (true) {
			try {
				(void) vm.top_is_reference();
			} catch (DaedalusScriptError const&) {
				break;
			}
			try { (void) vm.pop_int(); } catch (DaedalusScriptError const&) {}
			++left;
		}
		CHECK("height", left == height, "there are " << left << " values on the stack, " << height << " before the calls");
		if (ok + bad && (bad || errors)) k.nontrivial();
		k.tag(bad ? "failed" : "completed");
	}
} // namespace chaos
