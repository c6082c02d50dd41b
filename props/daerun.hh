// Runs a generated program (daegen.hh) on the library's VM and compares it with the reference interpreter.
#pragma once
#include "daegen.hh"

namespace dae {
	struct HostError {};

	struct Runner {
		Program& p;
		zenkit::DaedalusVm vm;
		std::vector<std::string> trace;
		std::vector<int> invocations;
		std::vector<Strategy> const* strategies = nullptr;
		size_t handled = 0;
		std::shared_ptr<zenkit::DaedalusInstance> inst[2];

		static zenkit::DaedalusScript script(Program& p) {
			zenkit::DaedalusScript s;
			dat::load(s, p.im.encode());
			return s;
		}
		Runner(Program& pr) : p(pr), vm(script(pr), pr.ignore_const ? zenkit::DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : zenkit::DaedalusVmExecutionFlag::NONE), invocations(pr.funcs.size()) {
			for (int i = 0; i < 2; ++i) {
				inst[i] = std::make_shared<zenkit::DaedalusInstance>();
				vm.find_symbol_by_index(p.inst[i])->set_instance(inst[i]);
			}
			for (size_t i = 0; i < p.funcs.size(); ++i) {
				auto& f = p.funcs[i];
				if (f.stash) vm.find_symbol_by_index(f.sym)->set_local_variables_enable(true);
				if (f.host() && f.registered) bind((int) i);
			}
			if (p.has_default) vm.register_default_external([this](std::string_view n) { trace.push_back("default external " + std::string(n)); });
		}
		void handler(std::vector<Strategy> const* st) {
			strategies = st;
			vm.register_exception_handler([this](zenkit::DaedalusVm& v, zenkit::DaedalusScriptError const&, zenkit::DaedalusInstruction const& in) {
				trace.push_back("error at opcode " + std::to_string((int) in.op));
				auto how = handled < strategies->size() ? (*strategies)[handled] : CONTINUE;
				++handled;
				if (how == FAIL) return zenkit::DaedalusVmExceptionStrategy::FAIL;
				if (how == RETURN) return zenkit::DaedalusVmExceptionStrategy::RETURN;
				if (in.op == Op::DIV || in.op == Op::MOD) v.push_int(0); // the result that is missing
				return zenkit::DaedalusVmExceptionStrategy::CONTINUE;
			});
		}
		int gi() {
			auto x = vm.unsafe_get_gi();
			return x == nullptr ? -1 : x == inst[0] ? 0 : x == inst[1] ? 1 : 9;
		}

		static Val val(int32_t v) { return Val::of(v); }
		static Val val(float v) { return Val::of(v); }
		static Val val(std::string_view v) { return Val::of(std::string(v)); }
		static Val val(zenkit::DaedalusFunction v) { return Val::fn(v.value ? (int32_t) v.value->index() : -1); }

		Val serve(int fi, std::vector<Val> const& args) {
			auto& f = p.funcs[fi];
			int n = invocations[fi]++;
			std::ostringstream w;
			w << f.name << "(";
			for (auto& a : args) w << a.str() << ",";
			w << ") instance " << gi();
			trace.push_back(w.str());
			if (f.beh.reenter >= 0 && f.beh.reenter_at.count(n)) {
				auto v = call(f.beh.reenter, Machine::callback_args(p, f.beh.reenter, args), n & 1, false);
				trace.push_back("callback gave " + v.str());
			}
			if (f.beh.foreign.count(n)) throw HostError {};
			if (f.beh.fault.count(n)) throw zenkit::DaedalusVmException {"raised by the host"};
			return respond(f, args, n);
		}

		template <typename R, typename... A>
		void bind_typed(int fi) {
			auto fn = [this, fi](A... a) -> R {
				std::vector<Val> args {val(a)...};
				auto r = serve(fi, args);
				std::vector<Val> after {val(a)...};
				CHECK("argument-changed", args == after, "an argument of " << p.funcs[fi].name << " changed while it ran");
				if constexpr (std::is_same_v<R, int32_t>) return r.i;
				if constexpr (std::is_same_v<R, float>) return r.f;
				if constexpr (std::is_same_v<R, std::string>) return r.s;
			};
			if (p.funcs[fi].external) vm.register_external(p.funcs[fi].name, std::function<R(A...)> {fn});
			else vm.override_function(p.funcs[fi].name, std::function<R(A...)> {fn});
		}
		template <typename R, typename... A>
		void bind_args(int fi) {
			auto& f = p.funcs[fi];
			if (sizeof...(A) == f.params.size()) return bind_typed<R, A...>(fi);
			if constexpr (sizeof...(A) < 2 && !(std::is_same_v<A, zenkit::DaedalusFunction> || ...)) {
				switch (p.vars[f.params[sizeof...(A)]].t) {
				case I: return bind_args<R, A..., int32_t>(fi);
				case F: return bind_args<R, A..., float>(fi);
				case S: return bind_args<R, A..., std::string_view>(fi);
				default:
					if constexpr (sizeof...(A) == 0) return bind_args<R, zenkit::DaedalusFunction>(fi);
				}
			} else if constexpr (sizeof...(A) == 2) {
				return bind_args<R, A..., std::tuple_element_t<0, std::tuple<A...>>>(fi);
			}
			std::abort();
		}
		void bind(int fi) {
			switch (p.funcs[fi].ret) {
			case V: return bind_args<void>(fi);
			case I: return bind_args<int32_t>(fi);
			case F: return bind_args<float>(fi);
			case S: return bind_args<std::string>(fi);
			default: std::abort();
			}
		}

		template <typename R, typename... A>
		Val call_args(int fi, std::vector<Val> const& args, bool by_name, A... a) {
			auto& f = p.funcs[fi];
			if (sizeof...(A) == args.size()) {
				auto* y = vm.find_symbol_by_index(f.sym);
				if constexpr (std::is_void_v<R> || std::is_same_v<R, zenkit::IgnoreReturnValue>) {
					if constexpr (sizeof...(A) < 2) {
						if (by_name) return vm.call_function<R>(f.name, a...), Val::zero(V);
					}
					vm.call_function<R>(y, a...);
					return Val::zero(V);
				} else {
					if constexpr (sizeof...(A) < 2) {
						if (by_name) return val(vm.call_function<R>(f.name, a...));
					}
					return val(vm.call_function<R>(y, a...));
				}
			}
			if constexpr (sizeof...(A) == 2) {
				auto& v = args[2];
				using T = std::tuple_element_t<0, std::tuple<A...>>;
				if constexpr (std::is_same_v<T, float>) return call_args<R>(fi, args, by_name, a..., v.f);
				else if constexpr (std::is_same_v<T, int32_t>) return call_args<R>(fi, args, by_name, a..., v.i);
				else return call_args<R>(fi, args, by_name, a..., std::string_view {v.s});
			} else if constexpr (sizeof...(A) < 2) {
				auto& v = args[sizeof...(A)];
				switch (v.t) {
				case F: return call_args<R>(fi, args, by_name, a..., v.f);
				case S: return call_args<R>(fi, args, by_name, a..., std::string_view {v.s});
				default: return call_args<R>(fi, args, by_name, a..., v.i);
				}
			}
			std::abort();
		}
		/// Calls a script function and checks that everything but the variables is left as found.
		Val call(int fi, std::vector<Val> const& args, bool by_name, bool ignore) {
			auto pc = vm.pc();
			auto before = vm.unsafe_get_gi();
			int32_t mark = 0x5EED0000 + (int32_t) handled;
			vm.push_int(mark);
			auto check = [&](char const* how) {
				CHECK("stack", [&] { // the mark must be on top again
					try {
						return !vm.top_is_reference() && vm.pop_int() == mark;
					} catch (zenkit::DaedalusScriptError const&) {
						return false;
					}
				}(), p.funcs[fi].name << " " << how << ": the evaluation stack is not as before the call");
				CHECK("position", vm.pc() == pc, p.funcs[fi].name << " " << how << ": the program position is " << vm.pc() << ", before the call " << pc);
				CHECK("instance", vm.unsafe_get_gi() == before, p.funcs[fi].name << " " << how << ": the current instance is not the one before the call");
			};
			try {
				Val r;
				if (ignore) r = call_args<zenkit::IgnoreReturnValue>(fi, args, by_name);
				else
					switch (p.funcs[fi].ret) {
					case V: r = call_args<void>(fi, args, by_name); break;
					case I: r = call_args<int32_t>(fi, args, by_name); break;
					case F: r = call_args<float>(fi, args, by_name); break;
					case S: r = call_args<std::string>(fi, args, by_name); break;
					default: std::abort();
					}
				check("returned");
				return r;
			} catch (zenkit::DaedalusScriptError const&) {
				check("raised an error");
				throw;
			} catch (HostError const&) {
				check("passed on an exception of the host");
				throw;
			}
		}

		Val read(int v, uint32_t i) {
			auto* y = vm.find_symbol_by_index(p.vars[v].sym);
			switch (p.vars[v].t) {
			case I: return Val::of(y->get_int((uint16_t) i));
			case F: return Val::of(y->get_float((uint16_t) i));
			case S: return Val::of(y->get_string((uint16_t) i));
			default: return Val::fn(y->get_int((uint16_t) i));
			}
		}
	};

	/// Runs the program's functions one after another on one VM, and on the reference interpreter.
	inline void history(pbt::Case& k, Program& p, std::vector<Strategy> const* strategies, int max_calls) {
		auto& s = k.src;
		Compiler c {p, {}, {}};
		c.run(s.flip(), s.flip());
		struct Call { int f; std::vector<Val> args; int32_t fuel; bool by_name, ignore; int times; };
		std::vector<Call> calls;
		std::vector<int> script;
		for (size_t i = 0; i < p.funcs.size(); ++i)
			if (!p.funcs[i].external) script.push_back((int) i);
		Gen g {s, {}, {}};
		for (size_t n = 1 + s.len((size_t) max_calls - 1); n > 0; --n) {
			Call x {s.pick(script), {}, s.chance(1, 25) ? 700 : 1 + (int32_t) s.below(25), s.flip(), s.chance(1, 4), s.chance(1, 60) ? 500 : 1};
			for (int v : p.funcs[x.f].params) x.args.push_back(p.vars[v].t == P ? Val::fn((int32_t) p.funcs[s.below(p.funcs.size())].sym) : g.value(p.vars[v].t));
			calls.push_back(std::move(x));
		}
		show(k.log, p);
		for (auto& x : calls) {
			k.log << "call " << p.funcs[x.f].name << "(";
			for (auto& a : x.args) k.log << a.str() << ",";
			k.log << ") fuel " << x.fuel << (x.ignore ? " ignoring the result" : "") << " x" << x.times << "\n";
		}
		if (strategies) {
			k.log << "errors are handled by";
			for (auto t : *strategies) k.log << (t == CONTINUE ? " continuing" : t == RETURN ? " returning" : " failing");
			k.log << "\n";
		}

		Machine a(p, false), b(p, true);
		a.strategies = b.strategies = strategies;
		Runner r(p);
		if (strategies) r.handler(strategies);
		bool deep = false;
		for (auto& x : calls) {
			for (int t = 0; t < x.times; ++t) {
				enum { OK, SCRIPT, HOST } ea = OK, eb = OK, er = OK;
				Val va, vb, vr;
				auto model = [&](Machine& m, auto& e, Val& v) {
					m.cells[p.fuel][0] = Val::of(x.fuel);
					m.trace.clear();
					m.depth = 0;
					try {
						v = m.from_host(x.f, x.args);
					} catch (Aborted&) {
						e = SCRIPT;
					} catch (Foreign&) {
						e = HOST;
					}
				};
				try {
					model(a, ea, va);
					model(b, eb, vb);
				} catch (Unclear&) {
					k.tag("unclear");
					if (!deep) pbt::discard();
					return;
				}
				// what the two readings of an operand make different is left open
				if (ea != eb || va != vb || a.trace != b.trace || a.cells != b.cells) {
					k.tag("order matters");
					if (!deep) pbt::discard();
					return;
				}
				r.vm.find_symbol_by_index(p.vars[p.fuel].sym)->set_int(x.fuel);
				r.trace.clear();
				std::string err;
				try {
					vr = r.call(x.f, x.args, x.by_name, x.ignore);
				} catch (zenkit::DaedalusScriptError const& e) {
					er = SCRIPT;
					err = e.what();
				} catch (HostError const&) {
					er = HOST;
				}
				auto what = p.funcs[x.f].name;
				for (size_t i = 0; i < std::max(a.trace.size(), r.trace.size()); ++i)
					CHECK("trace", i < a.trace.size() && i < r.trace.size() && a.trace[i] == r.trace[i],
					      what << ": event " << i << " is " << (i < r.trace.size() ? pbt::quote(r.trace[i]) : "missing") << ", expected " << (i < a.trace.size() ? pbt::quote(a.trace[i]) : "none"));
				CHECK("outcome", ea == er, what << (er == OK ? " returned" : er == SCRIPT ? " raised an error (" + err + ")" : " passed on a host exception") << ", expected " << (ea == OK ? "to return" : ea == SCRIPT ? "a script error" : "a host exception"));
				if (er == OK && !x.ignore) CHECK("result", vr == va, what << " returned " << vr.str() << ", expected " << va.str());
				for (size_t v = 0; v < p.vars.size(); ++v)
					for (uint32_t i = 0; i < p.vars[v].count; ++i) {
						auto got = r.read((int) v, i);
						CHECK("variable", got == a.cells[v][i], "after " << what << ": " << pbt::quote(p.vars[v].name) << "[" << i << "] is " << got.str() << ", expected " << a.cells[v][i].str());
					}
				if (a.calls + a.loops > 1) deep = true;
			}
		}
		if (a.calls > 0 && a.steps > 20) k.nontrivial();
		if (a.recursion) k.tag("recursion");
		if (a.loops) k.tag("loops");
		if (a.errors) k.tag("errors");
		if (a.surplus) k.tag("surplus values");
		if (a.reentries) k.tag("callbacks");
	}
} // namespace dae
