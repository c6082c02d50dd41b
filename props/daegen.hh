// Daedalus programs: generator, compiler (source tree -> byte code, following the original compiler's
// conventions) and a reference interpreter of the source tree. Used by C22 and C23.
#pragma once
#include "datgen.hh"
#include <optional>

namespace dae {
	using dat::Op;
	enum Ty { V, I, F, S, P }; // void, int, float, string, function reference
	inline char const* ty_name(Ty t) { return std::array {"void", "int", "float", "string", "func"}[t]; }

	struct Val {
		Ty t = V;
		int32_t i = 0; // int, and the symbol index of a function reference
		float f = 0;
		std::string s;
		bool operator==(Val const& o) const { return t == o.t && i == o.i && std::memcmp(&f, &o.f, 4) == 0 && s == o.s; }
		std::string str() const {
			std::ostringstream w;
			switch (t) {
			case V: return "nothing";
			case I: w << i; break;
			case F: w << f << "f"; break;
			case S: w << pbt::quote(s); break;
			case P: w << "&" << i; break;
			}
			return w.str();
		}
		static Val of(int32_t i) { Val v; v.t = I; v.i = i; return v; }
		static Val of(float f) { Val v; v.t = F; v.f = f; return v; }
		static Val of(std::string s) { Val v; v.t = S; v.s = std::move(s); return v; }
		static Val fn(int32_t sym) { Val v; v.t = P; v.i = sym; return v; }
		static Val zero(Ty t) { Val v; v.t = t; return v; }
	};

	struct Var {
		std::string name;
		Ty t = I;
		uint32_t count = 1;
		bool cnst = false;
		std::vector<Val> init;
		uint32_t sym = 0;
	};
	struct Expr {
		enum K { LIT, VAR, BIN, UN, CALL } k = LIT;
		Ty t = I;
		Val lit;
		int var = -1;      // VAR; for string literals the constant holding the text
		uint32_t idx = 0;
		Op op {};
		int callee = -1;   // also the target of a function reference literal
		std::vector<Expr> sub;
	};
	struct Stmt {
		enum K { ASSIGN, IF, WHILE, EXPR, RET, NOP, GI } k = NOP;
		Op op {};
		int var = -1;
		uint32_t idx = 0;
		std::vector<Expr> e;
		std::vector<Stmt> a, b;
	};
	struct Behaviour { // of a host function
		int32_t mul = 1;
		std::set<int> fault, foreign; // invocations that raise a script error / another exception
		int reenter = -1;             // script function called back
		std::set<int> reenter_at;
	};
	struct Func {
		std::string name;
		Ty ret = V;
		std::vector<int> params, locals;
		std::vector<Stmt> body;
		bool stash = false, external = false, overridden = false, registered = true;
		bool host() const { return external || overridden; }
		Behaviour beh;
		uint32_t sym = 0, addr = 0;
	};
	struct Program {
		std::vector<Var> vars;
		std::vector<int> globals;
		std::vector<Func> funcs;
		int fuel = -1;
		uint32_t inst[2] {}; // variables holding instances
		bool ignore_const = false;
		bool has_default = false; // a default external is registered
		dat::Image im;
	};

	// ---------------------------------------------------------------- generator
	struct Options {
		bool faults = false; // host functions fail, are missing, call back; constants are assigned
		bool stash = true;
	};

	struct Gen {
		pbt::Src& s;
		Options opt;
		Program p;
		int cur = 0; // function whose body is generated
		int budget = 0;

		int32_t edge() {
			switch (s.weighted({5, 3, 2, 2})) {
			case 0: return (int32_t) s.below(5);
			case 1: return -(int32_t) s.below(4);
			case 2: return s.pick({INT32_MAX, INT32_MIN, INT32_MIN + 1, 0x10000, -0x10000, 0x55555555});
			default: return s.i32();
			}
		}
		float real() { return s.chance(1, 3) ? (float) s.below(5) : s.finite(); }
		std::string text() {
			static char const* t[] = {"", "a", "b", "abc", "a rather long text that does not fit into a small string", " ", "x y"};
			return s.chance(3, 4) ? t[s.below(std::size(t))] : s.str(10);
		}
		Val value(Ty t) {
			switch (t) {
			case I: return Val::of(edge());
			case F: return Val::of(real());
			case S: return Val::of(text());
			default: return Val::zero(t);
			}
		}
		int var(std::string n, Ty t, uint32_t count, bool cnst) {
			Var v {std::move(n), t, count, cnst, {}, 0};
			for (uint32_t i = 0; i < count; ++i) v.init.push_back(t == P ? Val::zero(P) : value(t));
			p.vars.push_back(std::move(v));
			return (int) p.vars.size() - 1;
		}
		Ty scalar() { return std::array {I, I, F, S}[s.below(4)]; }

		void declare() {
			p.fuel = var("FUEL", I, 1, false);
			p.globals.push_back(p.fuel);
			int n = 2 + (int) s.len(5);
			for (int i = 0; i < n; ++i) {
				Ty t = i == 0 ? I : s.chance(1, 10) ? P : scalar();
				p.globals.push_back(var("G" + std::to_string(i), t, t == P ? 1 : s.chance(1, 4) ? (s.chance(1, 6) ? 250 + (uint32_t) s.below(6) : 2 + (uint32_t) s.below(4)) : 1, t != P && s.chance(1, 7)));
			}
			int ne = (int) s.len(3) + (opt.faults ? 1 : 0), nf = 1 + (int) s.len(4);
			for (int i = 0; i < ne + nf; ++i) {
				Func f;
				f.external = i < ne;
				f.name = (f.external ? "EXT" : "FN") + std::to_string(f.external ? i : i - ne);
				f.ret = s.pick({V, I, I, F, S});
				int np = (int) s.len(3);
				for (int j = 0; j < np; ++j) {
					// the host side is compiled for a limited set of signatures
					Ty t = np == 1 && s.chance(1, 6) ? P : j == 2 ? p.vars[f.params[0]].t : scalar();
					f.params.push_back(var(f.name + ".P" + std::to_string(j), t, 1, false));
				}
				if (!f.external) {
					int nl = (int) s.len(3);
					for (int j = 0; j < nl; ++j) {
						Ty t = s.chance(1, 6) ? P : scalar();
						f.locals.push_back(var(f.name + ".L" + std::to_string(j), t, t != P && s.chance(1, 4) ? 2 + (uint32_t) s.below(3) : 1, t != P && s.chance(1, 8)));
					}
					f.stash = opt.stash && s.chance(1, 3);
				}
				p.funcs.push_back(std::move(f));
			}
			for (auto& f : p.funcs) {
				if (!f.external && s.chance(1, opt.faults ? 5 : 9) && p.funcs.size() > 1) f.overridden = true;
				f.beh.mul = (int32_t) s.below(50) - 3;
				if (!opt.faults || !f.host()) continue;
				for (int j = 0; j < 3; ++j)
					if (s.chance(1, 3)) f.beh.fault.insert((int) s.below(5));
				if (s.chance(1, 10)) f.beh.foreign.insert((int) s.below(5));
				if (f.external && s.chance(1, 6)) f.registered = false;
				if (s.chance(1, 3)) {
					f.beh.reenter = ne + (int) s.below((unsigned) nf);
					for (int j = 0; j < 3; ++j) f.beh.reenter_at.insert((int) s.below(4));
				}
			}
			p.ignore_const = s.chance(1, 8);
			p.has_default = s.chance(1, 2);
		}

		// readable variables of a type, arrays by element
		std::optional<std::pair<int, uint32_t>> any_var(Ty t, bool write) {
			std::vector<int> c;
			auto add = [&](std::vector<int> const& l) {
				for (int v : l)
					if (p.vars[v].t == t && v != p.fuel && (!write || !p.vars[v].cnst || p.ignore_const || (opt.faults && s.chance(1, 6)))) c.push_back(v);
			};
			add(p.globals);
			add(p.funcs[cur].params);
			add(p.funcs[cur].params); // twice: more likely
			add(p.funcs[cur].locals);
			if (c.empty()) return std::nullopt;
			int v = s.pick(c);
			uint32_t n = std::min<uint32_t>(p.vars[v].count, 256);
			return std::pair {v, n == 1 ? 0 : s.chance(1, 4) ? n - 1 : (uint32_t) s.below(n)};
		}
		Expr literal(Ty t) {
			Expr e;
			e.t = t;
			if (t == P) {
				e.callee = (int) s.below(p.funcs.size());
				return e;
			}
			e.lit = value(t);
			if (t == S || (t == F && s.chance(1, 3))) { // texts live in constants made by the compiler
				int v = var("\xFF" + std::to_string(10000 + p.vars.size()), t, 1, true);
				p.vars[v].init[0] = e.lit;
				p.globals.push_back(v);
				e.k = Expr::VAR;
				e.var = v;
			}
			return e;
		}
		std::optional<Expr> call(Ty t, int depth) {
			std::vector<int> c;
			for (size_t i = 0; i < p.funcs.size(); ++i)
				if (p.funcs[i].ret == t) c.push_back((int) i);
			if (c.empty()) return std::nullopt;
			Expr e;
			e.k = Expr::CALL;
			e.t = t;
			e.callee = s.pick(c);
			auto params = p.funcs[e.callee].params;
			for (int v : params) e.sub.push_back(expr(p.vars[v].t, depth - 1));
			return e;
		}
		Expr expr(Ty t, int depth) {
			--budget;
			if (depth > 0 && budget > 0 && t != P && s.chance(1, 4))
				if (auto c = call(t, depth)) return *c;
			if (t == I && depth > 0 && budget > 0 && s.chance(3, 5)) {
				Expr e;
				if (s.chance(1, 5)) {
					e.k = Expr::UN;
					e.op = s.pick({Op::PLUS, Op::NEGATE, Op::NOT, Op::CMPL});
					e.sub.push_back(expr(I, depth - 1));
				} else {
					e.k = Expr::BIN;
					static Op const ops[] = {Op::ADD, Op::SUB, Op::MUL, Op::DIV, Op::MOD, Op::OR, Op::ANDB, Op::LT, Op::GT, Op::ORR, Op::AND, Op::LTE, Op::EQ, Op::NEQ, Op::GTE, Op::LSL, Op::LSR};
					e.op = s.pick(ops);
					e.sub.push_back(expr(I, depth - 1));
					if (e.op == Op::LSL || e.op == Op::LSR) {
						Expr k;
						k.lit = Val::of((int32_t) s.below(32));
						e.sub.push_back(k);
					} else {
						e.sub.push_back(expr(I, depth - 1));
					}
				}
				return e;
			}
			if (s.chance(3, 4))
				if (auto v = any_var(t, false)) {
					Expr e;
					e.k = Expr::VAR;
					e.t = t;
					e.var = v->first;
					e.idx = v->second;
					return e;
				}
			return literal(t);
		}
		std::vector<Stmt> block(int depth) {
			std::vector<Stmt> o;
			for (size_t n = s.len(4) + (depth > 2 ? 1 : 0); n > 0; --n) o.push_back(stmt(depth));
			return o;
		}
		Stmt fuelled() { // FUEL -= 1
			Stmt t;
			t.k = Stmt::ASSIGN;
			t.op = Op::SUBMOVI;
			t.var = p.fuel;
			Expr one;
			one.lit = Val::of(1);
			t.e.push_back(one);
			return t;
		}
		Stmt stmt(int depth) {
			Stmt t;
			--budget;
			switch (s.weighted({10, 3, 2, 4, 1, 1, 1})) {
			case 0: {
				Ty ty = s.chance(1, 8) ? P : scalar();
				auto v = any_var(ty, true);
				if (!v) return t;
				t.k = Stmt::ASSIGN;
				t.var = v->first;
				t.idx = v->second;
				t.op = ty == S ? Op::MOVS : ty == F ? Op::MOVF : ty == P ? Op::MOVVF : s.pick({Op::MOVI, Op::MOVI, Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI});
				t.e.push_back(expr(ty, 3));
				break;
			}
			case 1:
				if (depth <= 0) return t;
				t.k = Stmt::IF;
				t.e.push_back(expr(I, 2));
				t.a = block(depth - 1);
				if (s.flip()) t.b = block(depth - 1);
				break;
			case 2: {
				if (depth <= 0) return t;
				t.k = Stmt::WHILE;
				// while ((FUEL > 0) & cond) { FUEL -= 1; ... }
				Expr f, z, g, e;
				f.k = Expr::VAR;
				f.var = p.fuel;
				z.lit = Val::of(0);
				g.k = Expr::BIN;
				g.op = Op::GT;
				g.sub = {f, z};
				e.k = Expr::BIN;
				e.op = Op::AND;
				e.sub = {g, expr(I, 2)};
				t.e.push_back(e);
				t.a = block(depth - 1);
				t.a.insert(t.a.begin(), fuelled());
				break;
			}
			case 3: {
				auto c = call(s.pick({V, V, V, I, F, S}), 2);
				if (!c) return t;
				t.k = Stmt::EXPR;
				t.e.push_back(*c);
				break;
			}
			case 4: {
				t.k = Stmt::RET;
				Ty r = p.funcs[cur].ret;
				if (r != V) t.e.push_back(expr(r, 2));
				break;
			}
			case 5: // make an instance current
				t.k = Stmt::GI;
				t.var = (int) s.below(2);
				break;
			default: break;
			}
			return t;
		}
		void body(int i) {
			cur = i;
			budget = 60;
			auto b = block(3);
			Ty r = p.funcs[i].ret;
			if (r != V && s.chance(7, 8)) {
				Stmt t;
				t.k = Stmt::RET;
				t.e.push_back(expr(r, 3));
				b.push_back(t);
			}
			// FUEL -= 1; if (FUEL < 0) { return; }
			Stmt c;
			c.k = Stmt::IF;
			Expr f, z, e;
			f.k = Expr::VAR;
			f.var = p.fuel;
			z.lit = Val::of(0);
			e.k = Expr::BIN;
			e.op = Op::LT;
			e.sub = {f, z};
			c.e.push_back(e);
			Stmt ret;
			ret.k = Stmt::RET;
			if (r != V) ret.e.push_back(literal(r));
			c.a.push_back(ret);
			b.insert(b.begin(), c);
			b.insert(b.begin(), fuelled());
			p.funcs[i].body = std::move(b);
		}
		Program make() {
			declare();
			for (size_t i = 0; i < p.funcs.size(); ++i)
				if (!p.funcs[i].external) body((int) i);
			return std::move(p);
		}
	};

	// ---------------------------------------------------------------- compiler
	struct Compiler {
		Program& p;
		dat::Code c;
		std::vector<std::pair<uint32_t, int>> calls; // holes to fill with addresses

		dat::Sym sym_of(Var const& v) {
			dat::Sym y;
			y.name = v.name;
			y.count = v.count;
			y.flags = v.cnst ? dat::CONST : 0;
			y.type = v.t == I ? dat::INT : v.t == F ? dat::FLOAT : v.t == S ? dat::STRING : dat::FUNCTION;
			for (auto& x : v.init) {
				if (v.t == I) y.ints.push_back(x.i);
				if (v.t == F) y.floats.push_back(x.f);
				if (v.t == S) y.strings.push_back(x.s);
			}
			return y;
		}
		void put(int v) {
			p.vars[v].sym = (uint32_t) p.im.syms.size();
			p.im.syms.push_back(sym_of(p.vars[v]));
		}
		void layout(bool functions_first) {
			auto funcs = [&] {
				for (auto& f : p.funcs) {
					f.sym = (uint32_t) p.im.syms.size();
					dat::Sym y;
					y.name = f.name;
					y.type = dat::FUNCTION;
					y.flags = dat::CONST | (f.external ? dat::EXTERNAL : 0) | (f.ret != V ? dat::RETURN : 0);
					y.vary = std::array<uint32_t, 5> {dat::VOID, dat::INT, dat::FLOAT, dat::STRING, dat::FUNCTION}[f.ret];
					y.count = (uint32_t) f.params.size();
					p.im.syms.push_back(y);
					for (int v : f.params) put(v);
					for (int v : f.locals) put(v);
				}
			};
			auto insts = [&] {
				for (int i = 0; i < 2; ++i) {
					dat::Sym y;
					y.name = "INST" + std::to_string(i);
					y.type = dat::INSTANCE;
					p.inst[i] = (uint32_t) p.im.syms.size();
					p.im.syms.push_back(y);
				}
			};
			if (functions_first) funcs();
			insts();
			for (int v : p.globals) put(v);
			if (!functions_first) funcs();
		}
		void push_var(int v, uint32_t idx) {
			if (idx == 0) c.op(Op::PUSHV, p.vars[v].sym);
			else c.pushvv(p.vars[v].sym, idx);
		}
		void expr(Expr const& e) {
			switch (e.k) {
			case Expr::LIT:
				if (e.t == P) c.op(Op::PUSHI, p.funcs[e.callee].sym);
				else if (e.t == F) {
					uint32_t b;
					std::memcpy(&b, &e.lit.f, 4);
					c.op(Op::PUSHI, b);
				} else c.op(Op::PUSHI, (uint32_t) e.lit.i);
				break;
			case Expr::VAR: push_var(e.var, e.idx); break;
			case Expr::BIN:
				expr(e.sub[1]);
				expr(e.sub[0]);
				c.op(e.op);
				break;
			case Expr::UN:
				expr(e.sub[0]);
				c.op(e.op);
				break;
			case Expr::CALL: {
				for (auto& a : e.sub) expr(a);
				auto& f = p.funcs[e.callee];
				if (f.external) c.op(Op::BE, f.sym);
				else calls.emplace_back(c.hole(Op::BL), e.callee);
				break;
			}
			}
		}
		void stmts(std::vector<Stmt> const& l) {
			for (auto& t : l) {
				switch (t.k) {
				case Stmt::NOP: c.op(Op::NOP); break;
				case Stmt::GI: c.op(Op::GMOVI, p.inst[t.var]); break;
				case Stmt::ASSIGN:
					expr(t.e[0]);
					push_var(t.var, t.idx);
					c.op(t.op);
					break;
				case Stmt::IF: {
					expr(t.e[0]);
					auto z = c.hole(Op::BZ);
					stmts(t.a);
					if (t.b.empty()) {
						c.fill(z, c.here());
					} else {
						auto o = c.hole(Op::B);
						c.fill(z, c.here());
						stmts(t.b);
						c.fill(o, c.here());
					}
					break;
				}
				case Stmt::WHILE: {
					auto top = c.here();
					expr(t.e[0]);
					auto z = c.hole(Op::BZ);
					stmts(t.a);
					c.op(Op::B, top);
					c.fill(z, c.here());
					break;
				}
				case Stmt::EXPR: expr(t.e[0]); break;
				case Stmt::RET:
					if (!t.e.empty()) expr(t.e[0]);
					c.op(Op::RSR);
					break;
				}
			}
		}
		void run(bool functions_first, bool padding) {
			layout(functions_first);
			if (padding) c.op(Op::RSR);
			for (auto& f : p.funcs) {
				if (f.external) continue;
				f.addr = c.here();
				p.im.syms[f.sym].address = (int32_t) f.addr;
				for (size_t i = f.params.size(); i > 0; --i) {
					auto& v = p.vars[f.params[i - 1]];
					c.op(Op::PUSHV, v.sym);
					c.op(v.t == S ? Op::MOVS : v.t == F ? Op::MOVF : v.t == P ? Op::MOVVF : Op::MOVI);
				}
				stmts(f.body);
				c.op(Op::RSR);
			}
			for (auto& [at, f] : calls) c.fill(at, p.funcs[f].addr);
			p.im.code = c.b;
			p.im.make_sort();
		}
	};

	// ---------------------------------------------------------------- what host functions do
	inline Val respond(Func const& f, std::vector<Val> const& args, int invocation) {
		uint32_t h = (uint32_t) f.beh.mul * 31 + (uint32_t) invocation;
		std::string t;
		for (auto& a : args) {
			h = h * 17 + (uint32_t) a.i + (uint32_t) a.s.size();
			if (a.t == S) t += a.s.substr(0, 12);
			else t += "-";
		}
		switch (f.ret) {
		case I: return Val::of((int32_t) (f.beh.mul % 3 == 0 ? h % 5 : h));
		case F: return Val::of((float) (h % 1000) * 0.25f);
		case S: return Val::of(t + std::to_string(h % 100));
		default: return Val::zero(V);
		}
	}

	enum Strategy { CONTINUE, RETURN, FAIL };

	// ---------------------------------------------------------------- reference interpreter
	struct Unclear {};   // the source program does not determine the outcome, or it is too long
	struct Aborted {};   // a script error reaches the caller
	struct Foreign {};   // an exception of the host reaches the caller
	struct ReturnNow {};

	struct Machine {
		Program& p;
		bool eager;                      // operands are read when they are pushed, or when they are used
		std::vector<Strategy> const* strategies = nullptr; // none: no handler is set
		std::vector<std::vector<Val>> cells;
		struct Slot { bool ref = false; int var = -1; uint32_t idx = 0; Val v; };
		std::vector<Slot> st;
		std::vector<int> chain;
		std::vector<std::string> trace;
		std::vector<int> invocations;
		size_t handled = 0;
		uint64_t steps = 0, limit = 60000;
		int depth = 0;
		int gi = -1; // current instance: none, or the variable it was taken from
		uint64_t calls = 0, loops = 0, errors = 0, surplus = 0, recursion = 0, reentries = 0;

		explicit Machine(Program& pr, bool e) : p(pr), eager(e), invocations(pr.funcs.size()) {
			for (auto& v : p.vars) {
				cells.push_back(v.init);
			}
		}
		void step() {
			if (++steps > limit) throw Unclear {};
		}
		void push(Val v) {
			if (st.size() > 1800) throw Unclear {};
			st.push_back({false, -1, 0, std::move(v)});
		}
		void push_ref(int var, uint32_t idx) {
			if (eager) push(cells[var][idx]);
			else if (st.size() > 1800) throw Unclear {};
			else st.push_back({true, var, idx, {}});
		}
		Val resolve(Slot const& x) const { return x.ref ? cells[x.var][x.idx] : x.v; }
		Val pop(Ty t) {
			if (st.empty()) throw Unclear {};
			auto v = resolve(st.back());
			st.pop_back();
			if (v.t != t) throw Unclear {};
			return v;
		}
		void raise(Op op) {
			++errors;
			trace.push_back("error at opcode " + std::to_string((int) op));
			if (!strategies) {
				trace.pop_back();
				throw Aborted {};
			}
			auto how = handled < strategies->size() ? (*strategies)[handled] : CONTINUE;
			++handled;
			if (how == FAIL) throw Aborted {};
			if (how == RETURN) throw ReturnNow {};
		}
		void eval(Expr const& e) {
			step();
			switch (e.k) {
			case Expr::LIT: push(e.t == P ? Val::fn((int32_t) p.funcs[e.callee].sym) : e.lit); break;
			case Expr::VAR: push_ref(e.var, e.idx); break;
			case Expr::UN: {
				eval(e.sub[0]);
				auto a = (uint32_t) pop(I).i;
				push(Val::of((int32_t) (e.op == Op::PLUS ? a : e.op == Op::NEGATE ? 0u - a : e.op == Op::NOT ? (a == 0) : ~a)));
				break;
			}
			case Expr::BIN: {
				eval(e.sub[1]);
				eval(e.sub[0]);
				int32_t a = pop(I).i, b = pop(I).i;
				uint32_t ua = (uint32_t) a, ub = (uint32_t) b, r = 0;
				switch (e.op) {
				case Op::ADD: r = ua + ub; break;
				case Op::SUB: r = ua - ub; break;
				case Op::MUL: r = ua * ub; break;
				case Op::DIV: case Op::MOD:
					if (b == 0) {
						raise(e.op); // a handler that continues supplies a zero
						break;
					}
					r = e.op == Op::DIV ? (uint32_t) ((int64_t) a / b) : (uint32_t) ((int64_t) a % b);
					break;
				case Op::OR: r = ua | ub; break;
				case Op::ANDB: r = ua & ub; break;
				case Op::LT: r = a < b; break;
				case Op::GT: r = a > b; break;
				case Op::LTE: r = a <= b; break;
				case Op::GTE: r = a >= b; break;
				case Op::EQ: r = a == b; break;
				case Op::NEQ: r = a != b; break;
				case Op::ORR: r = a != 0 || b != 0; break;
				case Op::AND: r = a != 0 && b != 0; break;
				case Op::LSL: r = ua << b; break;
				case Op::LSR: r = (uint32_t) (int32_t) ((int64_t) a >> b); break;
				default: throw Unclear {};
				}
				push(Val::of((int32_t) r));
				break;
			}
			case Expr::CALL:
				for (auto& a : e.sub) eval(a);
				invoke(e.callee);
				break;
			}
		}
		void invoke(int fi) {
			auto& f = p.funcs[fi];
			++calls;
			if (f.host()) {
				host(fi);
				return;
			}
			try {
				call(fi);
			} catch (Aborted&) {
				if (f.ret != V) push(Val::zero(f.ret));
				raise(Op::BL);
			}
		}
		void host(int fi) {
			auto& f = p.funcs[fi];
			auto op = f.external ? Op::BE : Op::BL;
			size_t n = f.params.size();
			if (st.size() < n) throw Unclear {};
			std::vector<Val> args(n);
			for (size_t i = n; i > 0; --i) args[i - 1] = pop(p.vars[f.params[i - 1]].t);
			for (auto& a : args)
				if (a.t == P && std::none_of(p.funcs.begin(), p.funcs.end(), [&](Func const& g) { return g.sym == (uint32_t) a.i; })) a.i = -1;
			auto failed = [&] {
				if (f.ret != V) push(Val::zero(f.ret));
				raise(op);
			};
			if (!f.registered) {
				if (!p.has_default) return failed();
				trace.push_back("default external " + f.name);
				if (f.ret != V) push(Val::zero(f.ret));
				return;
			}
			std::optional<Val> r;
			chain.push_back(fi);
			size_t base = st.size();
			try {
				r = serve(fi, args);
			} catch (Aborted&) {
			} catch (...) {
				chain.pop_back();
				throw;
			}
			chain.pop_back();
			st.resize(base);
			if (!r) return failed();
			if (f.ret != V) push(*r);
		}
		// the body of a host function
		Val serve(int fi, std::vector<Val> const& args) {
			auto& f = p.funcs[fi];
			int n = invocations[fi]++;
			std::ostringstream w;
			w << f.name << "(";
			for (auto& a : args) w << a.str() << ",";
			w << ")";
			w << " instance " << gi;
			trace.push_back(w.str());
			if (f.beh.reenter >= 0 && f.beh.reenter_at.count(n)) {
				auto a = callback_args(p, f.beh.reenter, args);
				++reentries;
				auto v = from_host(f.beh.reenter, a);
				trace.push_back("callback gave " + v.str());
			}
			if (f.beh.foreign.count(n)) throw Foreign {};
			if (f.beh.fault.count(n)) throw Aborted {};
			return respond(f, args, n);
		}
		static std::vector<Val> callback_args(Program const& p, int g, std::vector<Val> const& args) {
			std::vector<Val> a;
			for (int v : p.funcs[g].params) {
				Val x = Val::zero(p.vars[v].t);
				for (auto& y : args)
					if (y.t == x.t) x = y;
				if (x.t == S) x.s += "'";
				if (x.t == P) x = Val::zero(P);
				a.push_back(x);
			}
			return a;
		}
		// a call made by the host; unwinds to the state before on errors
		Val from_host(int fi, std::vector<Val> const& args) {
			if (++depth > 40) throw Unclear {};
			for (auto& a : args) push(a);
			call(fi);
			--depth;
			Ty t = p.funcs[fi].ret;
			return t == V ? Val::zero(V) : pop(t);
		}
		void call(int fi) {
			auto& f = p.funcs[fi];
			step();
			if (chain.size() > 150) throw Unclear {};
			if (st.size() < f.params.size()) throw Unclear {};
			size_t base = st.size() - f.params.size();
			bool rec = std::find(chain.begin(), chain.end(), fi) != chain.end();
			if (rec) ++recursion;
			std::vector<std::vector<Val>> saved;
			if (rec && f.stash)
				for (int v : f.locals) saved.push_back(cells[v]);
			int old = gi;
			auto restore = [&] {
				gi = old;
				if (rec && f.stash)
					for (size_t i = 0; i < f.locals.size(); ++i) cells[f.locals[i]] = saved[i];
				chain.pop_back();
			};
			chain.push_back(fi);
			try {
				for (size_t i = f.params.size(); i > 0; --i) cells[f.params[i - 1]][0] = pop(p.vars[f.params[i - 1]].t);
				run(f.body);
			} catch (ReturnNow&) {
			} catch (Unclear&) {
				throw;
			} catch (...) {
				st.resize(base);
				restore();
				throw;
			}
			if (st.size() > base + (f.ret != V)) ++surplus;
			if (f.ret == V) {
				st.resize(base);
			} else if (st.size() == base) {
				push(Val::zero(f.ret));
			} else {
				Slot top = st.back();
				if (rec && f.stash && top.ref && std::find(f.locals.begin(), f.locals.end(), top.var) != f.locals.end()) top = {false, -1, 0, resolve(top)};
				st.resize(base);
				st.push_back(top);
				if (resolve(top).t != f.ret) throw Unclear {};
			}
			restore();
		}
		bool run(std::vector<Stmt> const& l) { // true: returned
			for (auto& t : l) {
				step();
				switch (t.k) {
				case Stmt::NOP: break;
				case Stmt::GI: gi = t.var; break;
				case Stmt::ASSIGN: {
					eval(t.e[0]);
					auto& v = p.vars[t.var];
					auto x = pop(v.t);
					auto& cell = cells[t.var][t.idx];
					if (t.op == Op::DIVMOVI && x.i == 0) {
						raise(t.op);
						break;
					}
					if (v.cnst && !p.ignore_const) {
						raise(t.op);
						break;
					}
					switch (t.op) {
					case Op::ADDMOVI: cell.i = (int32_t) ((uint32_t) cell.i + (uint32_t) x.i); break;
					case Op::SUBMOVI: cell.i = (int32_t) ((uint32_t) cell.i - (uint32_t) x.i); break;
					case Op::MULMOVI: cell.i = (int32_t) ((uint32_t) cell.i * (uint32_t) x.i); break;
					case Op::DIVMOVI: cell.i = (int32_t) ((int64_t) cell.i / x.i); break;
					default: cell = x;
					}
					break;
				}
				case Stmt::IF:
					eval(t.e[0]);
					if (pop(I).i != 0) {
						if (run(t.a)) return true;
					} else if (run(t.b)) return true;
					break;
				case Stmt::WHILE:
					for (;;) {
						step();
						eval(t.e[0]);
						if (pop(I).i == 0) break;
						++loops;
						if (run(t.a)) return true;
					}
					break;
				case Stmt::EXPR: eval(t.e[0]); break;
				case Stmt::RET:
					if (!t.e.empty()) eval(t.e[0]);
					return true;
				}
			}
			return false;
		}
	};

	// ---------------------------------------------------------------- printing (for samples and replays)
	inline void show(std::ostream& o, Program const& p, Expr const& e) {
		switch (e.k) {
		case Expr::LIT: if (e.t == P) o << "&" << p.funcs[e.callee].name; else o << e.lit.str(); break;
		case Expr::VAR:
			if (p.vars[e.var].name[0] == '\xFF') o << p.vars[e.var].init[0].str();
			else {
				o << p.vars[e.var].name;
				if (e.idx) o << "[" << e.idx << "]";
			}
			break;
		case Expr::UN: o << "(op" << (int) e.op << " "; show(o, p, e.sub[0]); o << ")"; break;
		case Expr::BIN: {
			static std::map<int, char const*> const n {{0, "+"}, {1, "-"}, {2, "*"}, {3, "/"}, {4, "%"}, {5, "|"}, {6, "&"}, {7, "<"}, {8, ">"}, {11, "||"}, {12, "&&"}, {13, "<<"}, {14, ">>"}, {15, "<="}, {16, "=="}, {17, "!="}, {18, ">="}};
			o << "(";
			show(o, p, e.sub[0]);
			o << " " << n.at((int) e.op) << " ";
			show(o, p, e.sub[1]);
			o << ")";
			break;
		}
		case Expr::CALL:
			o << p.funcs[e.callee].name << "(";
			for (auto& a : e.sub) show(o, p, a), o << ",";
			o << ")";
		}
	}
	inline void show(std::ostream& o, Program const& p, std::vector<Stmt> const& l) {
		for (auto& t : l) {
			switch (t.k) {
			case Stmt::NOP: o << "; "; break;
			case Stmt::GI: o << "current instance = INST" << t.var << "; "; break;
			case Stmt::ASSIGN: {
				static std::map<Op, char const*> const n {{Op::ADDMOVI, "+="}, {Op::SUBMOVI, "-="}, {Op::MULMOVI, "*="}, {Op::DIVMOVI, "/="}};
				o << p.vars[t.var].name;
				if (t.idx) o << "[" << t.idx << "]";
				o << " " << (n.count(t.op) ? n.at(t.op) : "=") << " ";
				show(o, p, t.e[0]);
				o << "; ";
				break;
			}
			case Stmt::IF:
				o << "if ";
				show(o, p, t.e[0]);
				o << " { ";
				show(o, p, t.a);
				o << "} else { ";
				show(o, p, t.b);
				o << "} ";
				break;
			case Stmt::WHILE:
				o << "while ";
				show(o, p, t.e[0]);
				o << " { ";
				show(o, p, t.a);
				o << "} ";
				break;
			case Stmt::EXPR: show(o, p, t.e[0]); o << "; "; break;
			case Stmt::RET:
				o << "return ";
				if (!t.e.empty()) show(o, p, t.e[0]);
				o << "; ";
				break;
			}
		}
	}
	inline void show(std::ostream& o, Program const& p) {
		for (int v : p.globals) {
			auto& x = p.vars[v];
			if (x.name[0] == '\xFF') continue;
			o << (x.cnst ? "const " : "var ") << ty_name(x.t) << " " << x.name << "[" << x.count << "]";
			if (x.count == 1) o << " = " << x.init[0].str();
			o << "\n";
		}
		for (auto& f : p.funcs) {
			o << (f.external ? "external " : f.overridden ? "override " : f.stash ? "stash " : "") << ty_name(f.ret) << " " << f.name << "(";
			for (int v : f.params) o << ty_name(p.vars[v].t) << " " << p.vars[v].name << ",";
			o << ")";
			if (!f.registered) o << " unregistered";
			for (int n : f.beh.fault) o << " fails@" << n;
			for (int n : f.beh.foreign) o << " throws@" << n;
			if (f.beh.reenter >= 0)
				for (int n : f.beh.reenter_at) o << " calls " << p.funcs[f.beh.reenter].name << "@" << n;
			o << " { ";
			for (int v : f.locals) o << "var " << ty_name(p.vars[v].t) << " " << p.vars[v].name << "[" << p.vars[v].count << "]; ";
			show(o, p, f.body);
			o << "}\n";
		}
	}
} // namespace dae
