// Host/script signatures: one script function or external of a random signature, bound to and called
// with random host signatures.
#pragma once
#include "datgen.hh"

namespace sig {
	using namespace zenkit;
	struct InstA : DaedalusInstance { int32_t v = 0; };
	struct InstB : DaedalusInstance { int32_t v = 0; };
	using PA = std::shared_ptr<InstA>;
	using PI = std::shared_ptr<DaedalusInstance>;
	enum Host { H_VOID, H_INT, H_FLOAT, H_STRING, H_PA, H_PI, H_RAW, H_BOOL, H_IGNORE, H_FUNC };
	inline char const* host_names[] = {"void", "int", "float", "string", "shared_ptr<A>", "shared_ptr<instance>", "A*", "bool", "ignored", "function"};
	inline char const* type_names[] = {"void", "float", "int", "string", "class", "func", "prototype", "instance"};

	template <typename T> constexpr Host host() {
		if constexpr (std::is_void_v<T>) return H_VOID;
		else if constexpr (std::is_same_v<T, bool>) return H_BOOL;
		else if constexpr (std::is_same_v<T, int32_t>) return H_INT;
		else if constexpr (std::is_same_v<T, float>) return H_FLOAT;
		else if constexpr (std::is_same_v<T, PA>) return H_PA;
		else if constexpr (std::is_same_v<T, PI>) return H_PI;
		else if constexpr (std::is_same_v<T, InstA*>) return H_RAW;
		else if constexpr (std::is_same_v<T, IgnoreReturnValue>) return H_IGNORE;
		else return H_STRING;
	}
	inline bool fits(Host h, dat::Type t) {
		switch (h) {
		case H_VOID: return t == dat::VOID;
		case H_INT: case H_BOOL: case H_FUNC: return t == dat::INT || t == dat::FUNCTION;
		case H_FLOAT: return t == dat::FLOAT;
		case H_STRING: return t == dat::STRING;
		case H_IGNORE: return true;
		default: return t == dat::INSTANCE;
		}
	}
	inline std::string fmt(float v) { uint32_t b; std::memcpy(&b, &v, 4); return "f" + std::to_string(b); }
	inline std::string fmt(int32_t v) { return std::to_string(v); }
	inline std::string fmt(bool v) { return v ? "true" : "false"; }
	inline std::string fmt(std::string_view v) { return pbt::quote(std::string(v)); }
	inline std::string fmt(std::string const& v) { return pbt::quote(v); }

	struct Param { dat::Type t; int32_t i = 0; float f = 0; std::string s; int inst = 0; }; // inst: 0 null, 1 A, 2 B, 3 an A without a symbol, 4 a function

	struct World {
		pbt::Case& k;
		bool external = false, trap = false;
		dat::Type ret = dat::VOID;
		std::vector<Param> params;
		int32_t ri = 0; float rf = 0; std::string rs; int rinst = 0; // what F returns
		uint32_t F = 0, CALLER = 0, P0 = 0, CALLS = 0, IA = 0, IB = 0, VI = 0, VU = 0;
		std::unique_ptr<DaedalusVm> vm;
		PA a, u;
		std::shared_ptr<InstB> b;
		int bound = 0; // 1: by a host function
		Host bret = H_VOID;
		std::vector<Host> bargs;
		std::vector<std::string> seen; // arguments the host function got
		int served = 0;

		std::string inst(DaedalusInstance const* x) const { return x == nullptr ? "null" : x == a.get() ? "A" : x == b.get() ? "B" : x == u.get() ? "U" : "unknown"; }
		PI ptr(int w) const { return w == 0 ? nullptr : w == 1 ? PI {a} : w == 2 ? PI {b} : PI {u}; }
		std::string show(Param const& p, Host h) const {
			switch (p.t) {
			case dat::INT: case dat::FUNCTION: return h == H_BOOL ? fmt(p.i != 0) : fmt(p.i);
			case dat::FLOAT: return fmt(p.f);
			case dat::STRING: return fmt(p.s);
			default: return inst(ptr(p.inst).get());
			}
		}
		std::string result(Host h) const {
			if (h == H_FUNC) return (uint32_t) ri == F ? "F" : (uint32_t) ri == CALLER ? "CALLER" : "no function";
			switch (ret) {
			case dat::VOID: return "";
			case dat::INT: case dat::FUNCTION: return fmt(ri);
			case dat::FLOAT: return fmt(rf);
			case dat::STRING: return fmt(rs);
			default: return inst(ptr(rinst).get());
			}
		}

		void build() {
			using namespace dat;
			auto& s = k.src;
			static const Type T[] = {INT, FLOAT, STRING, INSTANCE, FUNCTION};
			external = s.flip();
			ret = s.chance(1, 4) ? VOID : T[s.below(5)];
			for (size_t n = s.below(3); n > 0; --n) params.push_back({T[s.below(5)]});
			bool func = s.flip(); ri = func ? 0 : s.i32(); rf = s.finite(); rs = s.text(8, "abcXYZ 12"); rinst = (int) s.below(4);
			Image im;
			auto add = [&](std::string n, Type t, uint32_t flags, uint32_t count = 1) -> Sym& {
				Sym y; y.name = n; y.type = t; y.flags = flags; y.count = count;
				im.syms.push_back(y);
				return im.syms.back();
			};
			add("CA", CLASS, 0, 1); add("CA.V", INT, MEMBER).parent = 0;
			add("CB", CLASS, 0, 1); add("CB.V", INT, MEMBER).parent = 2;
			IA = 4; add("IA", INSTANCE, CONST, 0).parent = 0;
			IB = 5; add("IB", INSTANCE, CONST, 0).parent = 2;
			VI = 6; add("VI", INSTANCE, 0, 0).parent = 0;
			VU = 7; add("VU", INSTANCE, 0, 0).parent = 0;
			CALLS = 8; add("CALLS", INT, 0);
			std::vector<uint32_t> consts;
			for (auto& p : params) {
				p.i = s.i32(); p.f = s.finite(); p.s = s.text(8, "abcXYZ 12"); p.inst = (int) s.below(4);
				consts.push_back((uint32_t) im.syms.size());
				auto name = "K" + std::to_string(consts.size());
				if (p.t == FLOAT) add(name, FLOAT, CONST).floats = {p.f};
				else if (p.t == STRING) add(name, STRING, CONST).strings = {p.s};
				else if (p.t == FUNCTION) add(name, FUNCTION, 0);
				else add(name, INT, CONST).ints = {p.i};
			}
			uint32_t kr = (uint32_t) im.syms.size();
			if (ret == FLOAT) add("KR", FLOAT, CONST).floats = {rf};
			else if (ret == STRING) add("KR", STRING, CONST).strings = {rs};
			else add("KR", INT, CONST).ints = {ri};
			F = (uint32_t) im.syms.size();
			add("F", FUNCTION, CONST | (ret ? RETURN : 0u) | (external ? EXTERNAL : 0u), (uint32_t) params.size()).vary = ret;
			P0 = F + 1;
			for (size_t i = 0; i < params.size(); ++i) add("F.P" + std::to_string(i), params[i].t, 0, params[i].t == INSTANCE ? 0 : 1);
			CALLER = (uint32_t) im.syms.size();
			add("CALLER", FUNCTION, CONST | (ret ? RETURN : 0u), 0).vary = ret;

			if (func) ri = (int32_t) s.pick(std::vector<uint32_t> {F, CALLER, CALLS, (uint32_t) im.syms.size() + 5, 0xFFFFFFFFu});
			if (ret == INT || ret == FUNCTION) im.syms[kr].ints = {ri};

			Code c;
			c.op(Op::RSR); // the bodies of the instances
			im.syms[IA].address = im.syms[IB].address = 0;
			uint32_t body = c.here();
			if (!external) {
				im.syms[F].address = (int32_t) body;
				c.op(Op::PUSHI, 1); c.op(Op::PUSHV, CALLS); c.op(Op::ADDMOVI);
				for (size_t i = params.size(); i-- > 0;) {
					c.op(params[i].t == INSTANCE ? Op::PUSHVI : Op::PUSHV, P0 + (uint32_t) i);
					c.op(params[i].t == INT ? Op::MOVI : params[i].t == FLOAT ? Op::MOVF : params[i].t == STRING ? Op::MOVS : params[i].t == FUNCTION ? Op::MOVVF : Op::MOVVI);
				}
				if (ret == INSTANCE) c.op(Op::PUSHVI, rinst == 0 ? VI : rinst == 1 ? IA : rinst == 2 ? IB : VU);
				else if (ret == FUNCTION || ret == INT) c.op(Op::PUSHI, (uint32_t) ri);
				else if (ret != VOID) c.op(Op::PUSHV, kr);
				c.op(Op::RSR);
			}
			im.syms[CALLER].address = (int32_t) c.here();
			for (size_t i = 0; i < params.size(); ++i) {
				if (params[i].t == INSTANCE) c.op(Op::PUSHVI, params[i].inst == 0 ? VI : params[i].inst == 1 ? IA : params[i].inst == 2 ? IB : VU);
				else if (params[i].t == INT || params[i].t == FUNCTION) c.op(Op::PUSHI, (uint32_t) params[i].i);
				else c.op(Op::PUSHV, consts[i]);
			}
			if (external) c.op(Op::BE, F);
			else c.op(Op::BL, body);
			c.op(Op::RSR);
			im.code = c.b;
			im.make_sort();
			DaedalusScript sc;
			dat::load(sc, im.encode());
			vm = std::make_unique<DaedalusVm>(std::move(sc));
			vm->register_member("CA.V", &InstA::v);
			vm->register_member("CB.V", &InstB::v);
			a = vm->allocate_instance<InstA>("IA");
			b = vm->allocate_instance<InstB>("IB");
			u = std::make_shared<InstA>();
			vm->find_symbol_by_index(VU)->set_instance(u);
			k.log << (external ? "external " : "") << type_names[ret] << " F(";
			for (auto& p : params) k.log << type_names[p.t] << " " << show(p, H_INT) << ",";
			k.log << ") returns " << result(H_INT) << "\n";
		}

		std::string fmt_any(int32_t v) { return fmt(v); }
		template <typename T> std::string shown(T const& v) {
			if constexpr (std::is_pointer_v<T>) return inst(v);
			else if constexpr (std::is_same_v<T, DaedalusFunction>) return v.value ? v.value->name() : "no function";
			else if constexpr (std::is_same_v<T, PA> || std::is_same_v<T, PI>) return inst(v.get());
			else return fmt(v);
		}
		template <typename T> T give() {
			if constexpr (std::is_same_v<T, int32_t>) return ri;
			else if constexpr (std::is_same_v<T, float>) return rf;
			else if constexpr (std::is_same_v<T, std::string>) return rs;
			else if constexpr (std::is_same_v<T, PA>) return rinst == 1 ? a : nullptr;
		}

		template <typename R, typename... A> void bind(bool reg) {
			auto fn = [this](A... x) -> R {
				seen = {shown(x)...};
				++served;
				if constexpr (!std::is_void_v<R>) return give<R>();
			};
			if (reg) vm->register_external("F", std::function<R(A...)> {fn});
			else vm->override_function("F", std::function<R(A...)> {fn});
		}
		template <typename R, typename... A> void bind_args(std::vector<Host> const& h, bool reg) {
			if (sizeof...(A) == h.size()) return bind<R, A...>(reg);
			if constexpr (sizeof...(A) < 2) {
				switch (h[sizeof...(A)]) {
				case H_INT: return bind_args<R, A..., int32_t>(h, reg);
				case H_FLOAT: return bind_args<R, A..., float>(h, reg);
				case H_STRING: return bind_args<R, A..., std::string_view>(h, reg);
				case H_PA: return bind_args<R, A..., PA>(h, reg);
				default: break;
				}
				if constexpr (sizeof...(A) == 0) {
					switch (h[0]) {
					case H_RAW: return bind_args<R, InstA*>(h, reg);
					case H_PI: return bind_args<R, PI>(h, reg);
					case H_BOOL: return bind_args<R, bool>(h, reg);
					default: break;
					}
				}
			}
			std::abort();
		}
		void bind_any(Host r, std::vector<Host> const& h, bool reg) {
			switch (r) {
			case H_VOID: return bind_args<void>(h, reg);
			case H_INT: return bind_args<int32_t>(h, reg);
			case H_FLOAT: return bind_args<float>(h, reg);
			case H_STRING: return bind_args<std::string>(h, reg);
			default: return bind_args<PA>(h, reg);
			}
		}

		template <typename R, typename... A> std::string call(std::vector<Param> const& v, uint32_t fn, A... x) {
			if (sizeof...(A) == v.size()) {
				auto* y = vm->find_symbol_by_index(fn);
				if constexpr (std::is_void_v<R> || std::is_same_v<R, IgnoreReturnValue>) {
					vm->call_function<R>(y, x...);
					return "";
				} else {
					return shown(vm->call_function<R>(y, x...));
				}
			}
			if constexpr (sizeof...(A) < 2) {
				auto& p = v[sizeof...(A)];
				switch (p.t) {
				case dat::FLOAT: return call<R>(v, fn, x..., p.f);
				case dat::STRING: return call<R>(v, fn, x..., std::string_view {p.s});
				case dat::INSTANCE: return call<R>(v, fn, x..., p.inst == 1 ? a : PA {});
				default: return call<R>(v, fn, x..., p.i);
				}
			}
			std::abort();
		}
		std::string call_any(Host r, std::vector<Param> const& v, uint32_t fn) {
			switch (r) {
			case H_VOID: return call<void>(v, fn);
			case H_INT: return call<int32_t>(v, fn);
			case H_FLOAT: return call<float>(v, fn);
			case H_STRING: return call<std::string>(v, fn);
			case H_PA: return call<PA>(v, fn);
			case H_PI: return call<PI>(v, fn);
			case H_FUNC: return call<DaedalusFunction>(v, fn);
			default: return call<IgnoreReturnValue>(v, fn);
			}
		}
		/// Whether a host function taking (or expecting) type h can take this instance.
		static bool takes(Host h, int which) { return which < 2 || h == H_PI || h == H_IGNORE; }

		template <typename Fn> bool guarded(char const* what, std::string& err, Fn const& fn) {
			vm->push_int(0x5EED);
			auto pc = vm->pc();
			bool ok = true;
			try {
				fn();
			} catch (DaedalusScriptError const& e) {
				ok = false;
				err = e.what();
			}
			bool balanced = false;
			try {
				balanced = !vm->top_is_reference() && vm->pop_int() == 0x5EED;
			} catch (DaedalusScriptError const&) {}
			CHECK("stack", balanced, what << (ok ? "" : " (failed)") << ": the evaluation stack is not as before");
			CHECK("position", vm->pc() == pc, what << ": the program position changed");
			return ok;
		}

		void run() {
			auto& s = k.src;
			build();
			Host ideal_ret = ret == dat::VOID ? H_VOID : ret == dat::FLOAT ? H_FLOAT : ret == dat::STRING ? H_STRING : ret == dat::INSTANCE ? H_PA : H_INT;
			auto ideal = [&](dat::Type t, bool first) {
				switch (t) {
				case dat::FLOAT: return H_FLOAT;
				case dat::STRING: return H_STRING;
				case dat::INSTANCE: return !first || s.flip() ? H_PA : s.flip() ? H_RAW : H_PI;
				default: return first && s.chance(1, 3) ? H_BOOL : H_INT;
				}
			};
			int ran = 0, refused = 0;
			for (size_t n = 1 + s.len(6); n > 0; --n) {
				std::string err;
				auto what = s.below(3);
				if (what == 0) { // bind a host function
					bool reg = s.chance(1, 8) ? !external : external;
					Host r = s.chance(1, 4) ? s.pick(std::vector<Host> {H_VOID, H_INT, H_FLOAT, H_STRING, H_PA}) : ideal_ret;
					std::vector<Host> h;
					size_t arity = s.chance(1, 5) ? s.below(3) : params.size();
					for (size_t i = 0; i < arity; ++i) {
						if (i >= params.size() || s.chance(1, 6)) h.push_back(s.pick(i == 0 ? std::vector<Host> {H_INT, H_FLOAT, H_STRING, H_PA, H_RAW, H_PI, H_BOOL} : std::vector<Host> {H_INT, H_FLOAT, H_STRING, H_PA}));
						else h.push_back(ideal(params[i].t, i == 0));
					}
					k.log << (reg ? "register " : "override ") << host_names[r] << "(";
					for (auto x : h) k.log << host_names[x] << ",";
					k.log << ")\n";
					bool want = reg == external && fits(r, ret) && h.size() == params.size();
					for (size_t i = 0; want && i < h.size(); ++i) want = fits(h[i], params[i].t);
					bool got = guarded("binding", err, [&] { bind_any(r, h, reg); });
					CHECK("binding", got == want, "binding was " << (got ? "accepted" : "refused (" + err + ")") << ", expected otherwise");
					if (got) { bound = 1; bret = r; bargs = h; }
					else ++refused;
				} else if (what == 1) { // call the function itself
					Host r = s.chance(1, 5) ? H_IGNORE : s.chance(1, 4) ? s.pick(std::vector<Host> {H_VOID, H_INT, H_FLOAT, H_STRING, H_PA, H_PI, H_FUNC}) : (ret == dat::FUNCTION || ret == dat::INT) && s.flip() ? H_FUNC : ret == dat::INSTANCE && s.flip() ? H_PI : ideal_ret;
					auto v = params;
					for (auto& p : v) {
						p.i = s.i32(); p.f = s.finite(); p.s = s.text(8, "abcXYZ 12"); p.inst = (int) s.below(2);
						if (s.chance(1, 8)) p.t = s.pick(std::vector<dat::Type> {dat::INT, dat::FLOAT, dat::STRING, dat::INSTANCE});
					}
					if (s.chance(1, 8)) v.resize(s.below(3), Param {dat::INT});
					k.log << "call " << host_names[r] << " F(";
					for (auto& p : v) k.log << type_names[p.t] << " " << show(p, H_INT) << ",";
					k.log << ")\n";
					bool runs = fits(r, ret) && v.size() == params.size();
					for (size_t i = 0; runs && i < v.size(); ++i) runs = v[i].t == params[i].t || (v[i].t == dat::INT && params[i].t == dat::FUNCTION) || (v[i].t == dat::FUNCTION && params[i].t == dat::INT);
					if (external) runs = false;
					bool want = runs && (ret != dat::INSTANCE || takes(r, rinst));
					auto before = vm->find_symbol_by_index(CALLS)->get_int();
					std::string res;
					bool got = guarded("calling", err, [&] { res = call_any(r, v, F); });
					CHECK("called", got == want, "the call " << (got ? "succeeded" : "was refused (" + err + ")") << ", expected otherwise");
					CHECK("ran", vm->find_symbol_by_index(CALLS)->get_int() - before == (runs ? 1 : 0), "the function ran " << vm->find_symbol_by_index(CALLS)->get_int() - before << " times");
					if (!got) { ++refused; continue; }
					++ran;
					if (r != H_IGNORE) CHECK("result", res == result(r), "the call gave " << res << ", expected " << result(r));
					for (size_t i = 0; i < v.size(); ++i) {
						auto* y = vm->find_symbol_by_index(P0 + (uint32_t) i);
						std::string in = v[i].t == dat::FLOAT ? fmt(y->get_float()) : v[i].t == dat::STRING ? fmt(y->get_string()) : v[i].t == dat::INSTANCE ? inst(y->get_instance().get()) : fmt(y->get_int());
						CHECK("parameter", in == show(v[i], H_INT), "parameter " << i << " arrived as " << in << ", expected " << show(v[i], H_INT));
					}
				} else { // through the script
					Host r = s.chance(1, 5) ? H_IGNORE : (ret == dat::FUNCTION || ret == dat::INT) && s.flip() ? H_FUNC : ret == dat::INSTANCE && s.flip() ? H_PI : ideal_ret;
					k.log << "run, result " << host_names[r] << "\n";
					bool runs = !external || bound;
					if (bound)
						for (size_t i = 0; i < params.size(); ++i) runs = runs && (params[i].t != dat::INSTANCE || takes(bargs[i], params[i].inst));
					auto keep = rinst;
					if (bound && ret == dat::INSTANCE && rinst >= 2) rinst = 0; // the host functions return A or null
					bool want = runs && (ret != dat::INSTANCE || takes(r, rinst));
					auto before = vm->find_symbol_by_index(CALLS)->get_int();
					int was = served;
					std::string res;
					bool got = guarded("running", err, [&] { res = call_any(r, {}, CALLER); });
					CHECK("called", got == want, "running " << (got ? "succeeded" : "failed (" + err + ")") << ", expected otherwise");
					CHECK("ran", served - was == (runs && bound ? 1 : 0), "the host function ran " << served - was << " times");
					CHECK("ran", vm->find_symbol_by_index(CALLS)->get_int() - before == (!external && !bound ? 1 : 0), "the script function ran " << vm->find_symbol_by_index(CALLS)->get_int() - before << " times");
					if (got) {
						++ran;
						if (r != H_IGNORE) CHECK("result", res == result(r), "running gave " << res << ", expected " << result(r));
						if (bound)
							for (size_t i = 0; i < params.size(); ++i) CHECK("argument", seen[i] == show(params[i], bargs[i]), "argument " << i << " arrived as " << seen[i] << ", expected " << show(params[i], bargs[i]));
					} else ++refused;
					rinst = keep;
				}
			}
			if (ran && refused) k.nontrivial();
			if (bound) k.tag("bound");
		}
	};
	inline void signatures(pbt::Case& k) {
		World w {k};
		w.run();
	}
} // namespace sig
