// The VM's stack as the host sees it: a history of pushes and pops against a stack of frames.
#pragma once
#include "datgen.hh"

namespace vmstack {
	using namespace zenkit;
	inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
	inline float flt(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
	struct Frame { char kind; int32_t i = 0; float f = 0; std::string s; std::shared_ptr<DaedalusInstance> x; uint32_t sym = 0; uint16_t at = 0; };
	struct Thing : DaedalusInstance {};

	inline void run(pbt::Case& k) {
		using namespace dat;
		auto& s = k.src;
		Image im;
		auto add = [&](std::string n, Type t, uint32_t count) { Sym y; y.name = n; y.type = t; y.count = count; im.syms.push_back(y); };
		add("VI", dat::INT, 3), add("VF", dat::FLOAT, 2), add("VS", dat::STRING, 2);
		add("CO", dat::CLASS, 0), add("VX", dat::INSTANCE, 0);
		im.syms[4].parent = 3;
		im.make_sort();
		im.code = {(uint8_t) Op::RSR};
		DaedalusScript sc;
		dat::load(sc, im.encode());
		DaedalusVm vm {std::move(sc)};
		std::vector<std::shared_ptr<DaedalusInstance>> things;
		things.push_back(nullptr);
		for (int i = 0; i < 3; ++i) things.push_back(std::make_shared<Thing>());
		int32_t vi[3] {};
		float vf[2] {};
		std::string vs[2];
		std::shared_ptr<DaedalusInstance> vx;
		auto symbol = [&](char const* n) { auto* y = vm.find_symbol_by_name(n); CHECK("symbol", y, "no symbol " << n); return y; };
		DaedalusSymbol* sym[] {symbol("VI"), symbol("VF"), symbol("VS"), symbol("VX")};
		std::vector<Frame> m;
		auto text = [&] { return s.chance(1, 10) ? std::string(s.below(300), 's') : s.str(12); };
		auto push = [&](Frame f) {
			bool full = m.size() == 2048;
			try {
				switch (f.kind) {
				case 'i': vm.push_int(f.i); break;
				case 'f': vm.push_float(f.f); break;
				case 's': vm.push_string(f.s); break;
				case 'x': vm.push_instance(f.x); break;
				default: vm.push_reference(sym[f.sym], f.at);
				}
			} catch (DaedalusVmException const&) {
				CHECK("overflow", full, "push onto a stack of " << m.size() << " frames failed");
				return;
			}
			CHECK("overflow", !full, "a frame was pushed onto a full stack");
			m.push_back(std::move(f));
		};
		auto random = [&] {
			Frame f {};
			f.kind = s.pick({'i', 'f', 's', 'x', 'r'});
			f.i = s.i32(), f.f = s.flip() ? s.finite() : s.nice(), f.s = text(), f.x = things[s.below(things.size())];
			f.sym = (uint32_t) s.below(4), f.at = (uint16_t) s.below(f.sym == 0 ? 3 : f.sym == 3 ? 1 : 2);
			if (f.kind == 'r' && f.sym == 3) f.at = 0;
			return f;
		};
		std::string w;
		auto pop = [&](char want) { // i f s x r
			bool empty = m.empty();
			Frame f {};
			if (!empty) f = m.back(), m.pop_back();
			w = std::string("pop ") + want + " from " + (empty ? "an empty stack" : std::string("a frame ") + f.kind);
			k.log << w << "\n";
			bool str = f.kind == 's' || (f.kind == 'r' && f.sym == 2);
			bool ok = empty ? want == 'i' || want == 'f'
			    : want == 'i' ? f.kind == 'i' || (f.kind == 'r' && f.sym == 0)
			    : want == 'f' ? f.kind == 'f' || f.kind == 'i' || (f.kind == 'r' && f.sym == 1)
			    : want == 's' ? str : want == 'x' ? f.kind == 'x' || (f.kind == 'r' && f.sym == 3) : f.kind == 'r' || f.kind == 's';
			if (!ok && f.kind == 'r' && want == 'f' && f.sym == 0) { m.push_back(f), w.clear(); return; } // left open
			try {
				switch (want) {
				case 'i': {
					auto v = vm.pop_int();
					if (ok) { auto e = empty ? 0 : f.kind == 'i' ? f.i : vi[f.at]; CHECK("pop-int", v == e, w << " is " << v << " instead of " << e); }
					break;
				}
				case 'f': {
					auto v = vm.pop_float();
					if (ok) { auto e = empty ? 0 : f.kind == 'f' ? f.f : f.kind == 'i' ? flt((uint32_t) f.i) : vf[f.at]; CHECK("pop-float", bits(v) == bits(e) || (v != v && e != e), w << " is " << v << " instead of " << e); }
					break;
				}
				case 's': {
					std::string v = vm.pop_string();
					if (ok) { auto e = f.kind == 's' ? f.s : vs[f.at]; CHECK("pop-string", v == e, w << " is " << pbt::quote(v) << " instead of " << pbt::quote(e)); }
					break;
				}
				case 'x': {
					auto v = vm.pop_instance();
					if (ok) { auto e = f.kind == 'x' ? f.x : vx; CHECK("pop-instance", v == e, w << " is another instance"); }
					break;
				}
				default: {
					auto [y, at, ctx] = vm.pop_reference();
					if (ok && f.kind == 'r') CHECK("pop-reference", y == sym[f.sym] && at == f.at && ctx == nullptr, w << " is another reference");
				}
				}
			} catch (DaedalusScriptError const& e) {
				CHECK("pop", !ok, w << " failed: " << e.what());
				return;
			}
			CHECK("mismatch", ok, w << " did not fail");
		};
		if (s.chance(1, 8)) { // close to the limit
			k.tag("nearly full");
			for (size_t n = 2040 + s.below(9); n > 0; --n) { Frame f {}; f.kind = 'i', f.i = (int32_t) n; push(f); }
		}
		size_t ops = s.len(60);
		for (size_t n = 0; n < ops; ++n) {
			switch (s.weighted({6, 6, 3, 1})) {
			case 0: { auto f = random(); k.log << "push " << f.kind << " " << f.i << " " << f.f << " " << pbt::quote(f.s) << "\n"; push(f); break; }
			case 1: {
				char want = s.pick({'i', 'f', 's', 'x', 'r'});
				if (!m.empty() && s.chance(3, 4)) { auto& f = m.back(); want = f.kind != 'r' ? f.kind : "ifsx"[f.sym]; }
				pop(want);
				break;
			}
			case 2:
				switch (s.below(4)) {
				case 0: { auto i = s.below(3); vi[i] = s.i32(), sym[0]->set_int(vi[i], (uint16_t) i); break; }
				case 1: { auto i = s.below(2); vf[i] = s.nice(), sym[1]->set_float(vf[i], (uint16_t) i); break; }
				case 2: { auto i = s.below(2); vs[i] = text(), sym[2]->set_string(vs[i], (uint16_t) i); break; }
				default: vx = things[s.below(things.size())], sym[3]->set_instance(vx);
				}
				break;
			default: {
				bool threw = false, ref = false;
				try { ref = vm.top_is_reference(); } catch (DaedalusVmException const&) { threw = true; }
				CHECK("top", threw == m.empty() && (threw || ref == (m.back().kind == 'r' || m.back().kind == 's')), "top_is_reference() is wrong");
			}
			}
		}
		if (ops > 5) k.nontrivial();
		while (!m.empty() && m.size() < 200) { auto& f = m.back(); pop(f.kind != 'r' ? f.kind : "ifsx"[f.sym]); }
	}
}
