// C24: script instances hold their own members and restore globals.
#include "datgen.hh"
#include <functional>
#include <zenkit/addon/daedalus.hh>
using namespace zenkit;
using dat::Code;
using dat::Op;

namespace {
	enum class Mood : int32_t { CALM = 3, ANGRY = 77 };
	struct HA : DaedalusInstance {
		int32_t i = 11; float f = 1.5f; std::string s = "ha"; int32_t ia[5] {1, 2, 3, 4, 5}; float fa[300] {}; std::string sa[3] {"x", "y", "z"}; Mood e = Mood::CALM; int32_t fn = 0; int32_t big[400] {};
	};
	struct Other { virtual ~Other() = default; int pad = 5; };
	struct HB : Other, DaedalusInstance { std::string s[4]; float f = -2; int32_t fn[2] {7, 8}; std::string t = "hb"; int32_t i[3] {}; };

	struct Val {
		int32_t i = 0; float f = 0; std::string s;
		bool operator==(Val const& o) const { return i == o.i && std::memcmp(&f, &o.f, 4) == 0 && s == o.s; }
	};
	std::string show(dat::Type t, Val const& v) { std::ostringstream o; if (t == dat::FLOAT) o << v.f << "f"; else if (t == dat::STRING) o << pbt::quote(v.s); else o << v.i; return o.str(); }

	/// A field of a host class.
	struct Field {
		dat::Type t;
		uint32_t n;
		std::function<void(DaedalusScript&, std::string const&)> bind;
		std::function<Val(DaedalusInstance*, uint32_t)> get;
		std::function<void(DaedalusInstance*, uint32_t, Val const&)> set;
	};
	template <typename T> Val wrap(T const& x) {
		Val v;
		if constexpr (std::is_same_v<T, float>) v.f = x; else if constexpr (std::is_same_v<T, std::string>) v.s = x; else v.i = (int32_t) x;
		return v;
	}
	template <typename T> void unwrap(T& x, Val const& v) { if constexpr (std::is_same_v<T, float>) x = v.f; else if constexpr (std::is_same_v<T, std::string>) x = v.s; else x = (T) v.i; }
	template <typename C, typename T> Field field(T C::*m) {
		if constexpr (std::is_array_v<T>) {
			using E = std::remove_extent_t<T>;
			dat::Type t = std::is_same_v<E, float> ? dat::FLOAT : std::is_same_v<E, std::string> ? dat::STRING : dat::INT;
			return {t, (uint32_t) std::extent_v<T>, [m](DaedalusScript& s, std::string const& n) { s.register_member(n, m); },
			        [m](DaedalusInstance* x, uint32_t i) { return wrap((static_cast<C*>(x)->*m)[i]); },
			        [m](DaedalusInstance* x, uint32_t i, Val const& v) { unwrap((static_cast<C*>(x)->*m)[i], v); }};
		} else {
			dat::Type t = std::is_same_v<T, float> ? dat::FLOAT : std::is_same_v<T, std::string> ? dat::STRING : dat::INT;
			return {t, 1, [m](DaedalusScript& s, std::string const& n) { s.register_member(n, m); },
			        [m](DaedalusInstance* x, uint32_t) { return wrap(static_cast<C*>(x)->*m); },
			        [m](DaedalusInstance* x, uint32_t, Val const& v) { unwrap(static_cast<C*>(x)->*m, v); }};
		}
	}
	std::vector<Field> fields_of(int host) {
		if (host == 0) return {field(&HA::i), field(&HA::f), field(&HA::s), field(&HA::ia), field(&HA::fa), field(&HA::sa), field(&HA::e), field(&HA::fn), field(&HA::big)};
		return {field(&HB::s), field(&HB::f), field(&HB::fn), field(&HB::t), field(&HB::i)};
	}

	enum Kind { BOUND_A, BOUND_B, OPAQUE, PLAIN }; // PLAIN: never registered
	struct Member { uint32_t sym; dat::Type t; uint32_t count; bool bound; int field; };
	struct Class { uint32_t sym; Kind kind; std::vector<Member> members; };
	struct Stmt {
		enum { SET, ADD, COPY, USE, CALL, HOOK, ASSIGN, FAIL, CONSTSET, GLOBAL } k;
		int c = 0, m = 0, c2 = 0, m2 = 0; // classes and members
		uint32_t idx = 0, idx2 = 0, a = 0, b = 0; // element, symbols
		Val v;
	};
	struct Routine { uint32_t sym; std::vector<Stmt> body; int proto = -1; };

	/// An instance in the model.
	struct Obj { int cls; int which; std::shared_ptr<DaedalusInstance> real; std::map<std::pair<int, uint32_t>, Val> vals; }; // which: 0 a proper one, 1 transient, 2 never allocated
	struct Raised {};

	struct Transient : DaedalusTransientInstance {
		std::map<std::pair<uint32_t, uint32_t>, Val> vals;
		void set_int(DaedalusSymbol const& s, uint16_t i, int32_t v) override { vals[{s.index(), i}].i = v; }
		int32_t get_int(DaedalusSymbol const& s, uint16_t i) const override { auto it = vals.find({s.index(), i}); return it == vals.end() ? 0 : it->second.i; }
		void set_float(DaedalusSymbol const& s, uint16_t i, float v) override { vals[{s.index(), i}].f = v; }
		float get_float(DaedalusSymbol const& s, uint16_t i) const override { auto it = vals.find({s.index(), i}); return it == vals.end() ? 0 : it->second.f; }
		void set_string(DaedalusSymbol const& s, uint16_t i, std::string_view v) override { vals[{s.index(), i}].s = v; }
		std::string const& get_string(DaedalusSymbol const& s, uint16_t i) const override { static std::string e; auto it = vals.find({s.index(), i}); return it == vals.end() ? e : it->second.s; }
	};

	struct Test {
		pbt::Case& k;
		pbt::Src& s = k.src;
		dat::Image im;
		std::vector<Class> classes;
		std::vector<uint32_t> insts, vars; // instance constants and variables
		std::map<uint32_t, int> inst_class;
		std::vector<Routine> protos, bodies, funcs;
		std::map<uint32_t, size_t> body_of, func_of;
		uint32_t SELF = 0xFFFFFFFF, G = 0, KI = 0, HOOK = 0, MISSING = 0;
		bool null_ok = false, const_ok = false, hook_nests = false;
		std::vector<uint32_t> nest; // what the hook initialises, by invocation (0: nothing)
		std::unique_ptr<DaedalusVm> vm;

		// model state
		std::vector<Obj> objs;
		std::map<uint32_t, int> cell; // instance symbol -> object (-1: none)
		int gi = -1;
		int32_t g = 0, ki = 5;
		size_t hook_calls = 0, real_hooks = 0;
		std::vector<std::pair<int, int>> seen, expected; // current instance and self in the hook
		int depth = 0, steps = 0;
		int writes = 0, errors = 0, nested = 0;

		uint32_t add(std::string n, dat::Type t, uint32_t flags, uint32_t count = 1, int32_t parent = -1) {
			dat::Sym y; y.name = std::move(n); y.type = t; y.flags = flags; y.count = count; y.parent = parent;
			im.syms.push_back(y);
			return (uint32_t) im.syms.size() - 1;
		}
		Val value(dat::Type t) { Val v; if (t == dat::FLOAT) v.f = s.nice(); else if (t == dat::STRING) v.s = s.text(s.chance(1, 6) ? 40 : 6, "abc XYZ09"); else v.i = s.chance(1, 3) ? s.i32() : (int32_t) s.below(50); return v; }

		void make_classes() {
			bool used[2] {};
			for (size_t n = 1 + s.below(4), i = 0; i < n; ++i) {
				Class c;
				c.kind = (Kind) s.below(4);
				if (c.kind == PLAIN && !s.chance(1, 3)) c.kind = OPAQUE;
				if (c.kind < OPAQUE && used[c.kind]) c.kind = OPAQUE;
				if (c.kind < OPAQUE) used[c.kind] = true;
				auto name = "C" + std::to_string(i);
				c.sym = add(name, dat::CLASS, 0, 0);
				if (c.kind < OPAQUE) {
					auto fs = fields_of(c.kind);
					std::vector<int> order;
					for (size_t f = 0; f < fs.size(); ++f) if (s.chance(3, 4)) order.insert(order.begin() + (long) s.below(order.size() + 1), (int) f);
					for (int f : order) {
						bool fn = fs[f].t == dat::INT && s.chance(1, 4);
						uint32_t cnt = s.chance(1, 4) ? 1 + (uint32_t) s.below(fs[f].n) : fs[f].n;
						c.members.push_back({add(name + ".M" + std::to_string(f), fn ? dat::FUNCTION : fs[f].t, dat::MEMBER, cnt, (int32_t) c.sym), fn ? dat::FUNCTION : fs[f].t, cnt, s.chance(15, 16), f});
					}
				} else {
					static const dat::Type T[] = {dat::INT, dat::FLOAT, dat::STRING, dat::FUNCTION};
					for (size_t m = s.below(7), j = 0; j < m; ++j) {
						auto t = T[s.below(4)];
						uint32_t cnt = s.chance(1, 3) ? 1 + (uint32_t) s.below(s.chance(1, 8) ? 300 : 5) : 1;
						c.members.push_back({add(name + ".M" + std::to_string(j), t, dat::MEMBER, cnt, (int32_t) c.sym), t, cnt, c.kind == OPAQUE, -1});
						im.syms.back().vary = (uint32_t) (4 * j);
					}
				}
				im.syms[c.sym].count = (uint32_t) c.members.size();
				im.syms[c.sym].vary = (uint32_t) (4 * c.members.size());
				classes.push_back(c);
			}
		}
		bool any_member(int& c, int& m, int like) { // a member of a class, most often of the given one
			c = like >= 0 && !s.chance(1, 40) ? like : (int) s.below(classes.size());
			if (classes[(size_t) c].members.empty()) return false;
			m = (int) s.below(classes[(size_t) c].members.size());
			return true;
		}
		uint32_t element(Member const& m) { return s.chance(1, 60) ? m.count + (uint32_t) s.below(3) : (uint32_t) s.below(m.count); }
		uint32_t any_inst() { return s.flip() || vars.empty() ? s.pick(insts) : s.pick(vars); }
		std::vector<Stmt> body(int cls, size_t calls_from, int max) {
			std::vector<Stmt> b;
			int cur = cls;
			if (cls < 0 && s.chance(5, 6)) { // functions begin by choosing an instance
				Stmt t {};
				t.k = Stmt::USE;
				t.a = any_inst();
				cur = inst_class[t.a];
				b.push_back(t);
			}
			for (size_t n = s.len((size_t) max); n > 0; --n) {
				Stmt t {};
				switch (s.weighted({10, 4, 4, 4, 3, 3, 3, 1, 1, 1})) {
				case 0: t.k = Stmt::SET; break;
				case 1: t.k = Stmt::ADD; break;
				case 2: t.k = Stmt::COPY; break;
				case 3: t.k = Stmt::USE; break;
				case 4: t.k = Stmt::CALL; break;
				case 5: t.k = Stmt::HOOK; break;
				case 6: t.k = Stmt::ASSIGN; break;
				case 7: t.k = s.chance(1, 4) ? Stmt::FAIL : Stmt::GLOBAL; break;
				case 8: t.k = s.chance(1, 4) ? Stmt::CONSTSET : Stmt::GLOBAL; break;
				default: t.k = Stmt::GLOBAL;
				}
				switch (t.k) {
				case Stmt::SET: case Stmt::ADD: case Stmt::COPY: {
					if (!any_member(t.c, t.m, cur)) continue;
					auto& m = classes[(size_t) t.c].members[(size_t) t.m];
					t.idx = std::min(element(m), 255u);
					t.v = value(m.t);
					if (m.t != dat::INT && t.k == Stmt::ADD) t.k = Stmt::SET;
					if (t.k == Stmt::ADD && (t.b = (uint32_t) s.below(4)) == 3 && t.v.i == 0) t.v.i = 3;
					if (t.k == Stmt::COPY) {
						if (!any_member(t.c2, t.m2, cur) || classes[(size_t) t.c2].members[(size_t) t.m2].t != m.t) { t.k = Stmt::SET; break; }
						t.idx2 = element(classes[(size_t) t.c2].members[(size_t) t.m2]);
						if (t.idx2 > 255) t.idx2 = 0;
					}
					break;
				}
				case Stmt::USE: t.a = any_inst(); cur = inst_class[t.a]; break;
				case Stmt::CALL: if (calls_from >= funcs.size()) continue; t.a = (uint32_t) (calls_from + s.below(funcs.size() - calls_from)); break;
				case Stmt::ASSIGN: if (vars.empty()) continue; t.a = s.pick(vars); t.b = any_inst(); break;
				case Stmt::GLOBAL: case Stmt::CONSTSET: t.v = value(dat::INT); break;
				default: break;
				}
				b.push_back(t);
			}
			return b;
		}

		void make() {
			make_classes();
			if (s.chance(4, 5)) { SELF = add("SELF", dat::INSTANCE, 0, 0, (int32_t) classes[0].sym); vars.push_back(SELF); inst_class[SELF] = 0; }
			for (size_t n = s.below(3), i = 0; i < n; ++i) { int c = (int) s.below(classes.size()); vars.push_back(add("V" + std::to_string(i), dat::INSTANCE, 0, 0, (int32_t) classes[(size_t) c].sym)); inst_class[vars.back()] = c; }
			G = add("G", dat::INT, 0);
			KI = add("KI", dat::INT, dat::CONST); im.syms[KI].ints = {5};
			HOOK = add("HOOK", dat::FUNCTION, dat::CONST | dat::EXTERNAL, 0);
			MISSING = add("MISSING", dat::FUNCTION, dat::CONST | dat::EXTERNAL, 0);
			std::vector<int> proto_class;
			for (size_t n = s.below(3), i = 0; i < n; ++i) {
				int c = (int) s.below(classes.size());
				protos.push_back({add("PR" + std::to_string(i), dat::PROTOTYPE, dat::CONST, 0, (int32_t) classes[(size_t) c].sym), {}, -1});
				proto_class.push_back(c);
			}
			std::vector<int> inst_proto;
			for (size_t n = 1 + s.below(5), i = 0; i < n; ++i) {
				int pr = protos.empty() || s.flip() ? -1 : (int) s.below(protos.size());
				int c = pr >= 0 ? proto_class[(size_t) pr] : (int) s.below(classes.size());
				insts.push_back(add("I" + std::to_string(i), dat::INSTANCE, dat::CONST, 0, (int32_t) (pr >= 0 ? protos[(size_t) pr].sym : classes[(size_t) c].sym)));
				inst_class[insts.back()] = c;
				inst_proto.push_back(pr);
			}
			size_t nf = s.below(4);
			for (size_t i = 0; i < nf; ++i) { funcs.push_back({add("FN" + std::to_string(i), dat::FUNCTION, dat::CONST, 0), {}, -1}); func_of[funcs.back().sym] = i; }
			for (size_t i = 0; i < nf; ++i) funcs[i].body = body(-1, i + 1, 8);
			for (size_t i = 0; i < protos.size(); ++i) protos[i].body = body(proto_class[i], 0, 5);
			for (size_t i = 0; i < insts.size(); ++i) { body_of[insts[i]] = bodies.size(); bodies.push_back({insts[i], body(inst_class[insts[i]], 0, 8), inst_proto[i]}); }
			null_ok = s.chance(1, 3);
			const_ok = s.chance(1, 3);
			for (size_t n = s.len(4); n > 0; --n) nest.push_back(s.flip() ? s.pick(insts) : 0);
			compile();
		}
		void compile() {
			Code c;
			std::vector<std::pair<uint32_t, uint32_t>> calls; // hole, callee
			auto member = [&](int cl, int m, uint32_t idx) {
				auto sym = classes[(size_t) cl].members[(size_t) m].sym;
				if (idx == 0) c.op(Op::PUSHV, sym);
				else c.pushvv(sym, idx);
			};
			uint32_t lit = 0;
			std::vector<Routine*> all;
			for (auto& r : funcs) all.push_back(&r);
			for (auto& r : protos) all.push_back(&r);
			for (auto& r : bodies) all.push_back(&r);
			for (auto* r : all) {
				im.syms[r->sym].address = (int32_t) c.here();
				if (r->proto >= 0) calls.push_back({c.hole(Op::BL), protos[(size_t) r->proto].sym});
				for (auto& t : r->body) {
					switch (t.k) {
					case Stmt::SET: case Stmt::ADD: {
						auto ty = classes[(size_t) t.c].members[(size_t) t.m].t;
						if (ty == dat::INT || ty == dat::FUNCTION) c.op(Op::PUSHI, (uint32_t) t.v.i);
						else {
							auto y = add("\xFFL" + std::to_string(lit++), ty, dat::CONST);
							im.syms[y].floats = {t.v.f};
							im.syms[y].strings = {t.v.s};
							c.op(Op::PUSHV, y);
						}
						member(t.c, t.m, t.idx);
						c.op(t.k == Stmt::ADD ? std::array {Op::ADDMOVI, Op::SUBMOVI, Op::MULMOVI, Op::DIVMOVI}[t.b] : ty == dat::INT ? Op::MOVI : ty == dat::FUNCTION ? Op::MOVVF : ty == dat::FLOAT ? Op::MOVF : Op::MOVS);
						break;
					}
					case Stmt::COPY: {
						auto ty = classes[(size_t) t.c].members[(size_t) t.m].t;
						member(t.c2, t.m2, t.idx2);
						member(t.c, t.m, t.idx);
						c.op(ty == dat::INT ? Op::MOVI : ty == dat::FUNCTION ? Op::MOVVF : ty == dat::FLOAT ? Op::MOVF : Op::MOVS);
						break;
					}
					case Stmt::USE: c.op(Op::GMOVI, t.a); break;
					case Stmt::CALL: calls.push_back({c.hole(Op::BL), funcs[t.a].sym}); break;
					case Stmt::HOOK: c.op(Op::BE, HOOK); break;
					case Stmt::FAIL: c.op(Op::BE, MISSING); break;
					case Stmt::ASSIGN: c.op(Op::PUSHVI, t.b); c.op(Op::PUSHVI, t.a); c.op(Op::MOVVI); break;
					case Stmt::CONSTSET: c.op(Op::PUSHI, (uint32_t) t.v.i); c.op(Op::PUSHV, KI); c.op(Op::MOVI); break;
					case Stmt::GLOBAL: c.op(Op::PUSHI, (uint32_t) t.v.i); c.op(Op::PUSHV, G); c.op(Op::MOVI); break;
					}
				}
				c.op(Op::RSR);
			}
			for (auto& [at, y] : calls) c.fill(at, (uint32_t) im.syms[y].address);
			im.code = c.b;
			im.make_sort();
		}
		void print() {
			auto& o = k.log;
			for (auto& c : classes) {
				o << "class " << im.syms[c.sym].name << (c.kind == BOUND_A ? " (host A)" : c.kind == BOUND_B ? " (host B)" : c.kind == OPAQUE ? " (opaque)" : " (unregistered)") << " {";
				for (auto& m : c.members) o << " " << im.syms[m.sym].name << ":" << m.t << "[" << m.count << "]" << (m.bound ? "" : "!");
				o << " }\n";
			}
			auto rt = [&](Routine const& r) {
				o << im.syms[r.sym].name << (r.proto >= 0 ? "(" + im.syms[protos[(size_t) r.proto].sym].name + ")" : "") << " of " << (im.syms[r.sym].parent >= 0 ? im.syms[(size_t) im.syms[r.sym].parent].name : "-") << " {";
				for (auto& t : r.body) {
					auto mn = [&](int c, int m, uint32_t i) { auto& x = classes[(size_t) c].members[(size_t) m]; return im.syms[x.sym].name + "[" + std::to_string(i) + "]"; };
					switch (t.k) {
					case Stmt::SET: o << " " << mn(t.c, t.m, t.idx) << "=" << show(classes[(size_t) t.c].members[(size_t) t.m].t, t.v) << ";"; break;
					case Stmt::ADD: o << " " << mn(t.c, t.m, t.idx) << "+-*/"[t.b] << "=" << t.v.i << ";"; break;
					case Stmt::COPY: o << " " << mn(t.c, t.m, t.idx) << "=" << mn(t.c2, t.m2, t.idx2) << ";"; break;
					case Stmt::USE: o << " use " << im.syms[t.a].name << ";"; break;
					case Stmt::CALL: o << " FN" << t.a << "();"; break;
					case Stmt::HOOK: o << " HOOK();"; break;
					case Stmt::FAIL: o << " MISSING();"; break;
					case Stmt::ASSIGN: o << " " << im.syms[t.a].name << "=" << im.syms[t.b].name << ";"; break;
					case Stmt::CONSTSET: o << " KI=" << t.v.i << ";"; break;
					case Stmt::GLOBAL: o << " G=" << t.v.i << ";"; break;
					}
				}
				o << " }\n";
			};
			for (auto& r : protos) rt(r);
			for (auto& r : bodies) rt(r);
			for (auto& r : funcs) rt(r);
			if (null_ok) o << "null instances may be accessed\n";
			if (const_ok) o << "constants may be written\n";
			o << "HOOK initialises";
			for (auto x : nest) o << " " << (x ? im.syms[x].name : "-");
			o << "\n";
		}

		// ---- the model ----
		Val& at(int o, int c, int m, uint32_t idx) { return objs[(size_t) o].vals[{c * 1000 + m, idx}]; }
		/// The member of an object, nullptr if there is none and that is to be ignored.
		Val* access(int o, int c, int m, uint32_t idx) {
			auto& x = classes[(size_t) c].members[(size_t) m];
			if (o < 0) {
				if (null_ok) return nullptr;
				throw Raised {};
			}
			if (idx >= x.count) throw Raised {};
			if (objs[(size_t) o].which == 1) return &at(o, c, m, idx);
			if (objs[(size_t) o].which == 2 || !x.bound || objs[(size_t) o].cls != c) throw Raised {};
			return &at(o, c, m, idx);
		}
		int create(uint32_t sym) { // the object of a new instance
			Obj o {inst_class[sym], 0, nullptr, {}};
			auto& c = classes[(size_t) o.cls];
			if (c.kind < OPAQUE) {
				auto fs = fields_of(c.kind);
				std::shared_ptr<DaedalusInstance> fresh = c.kind == BOUND_A ? std::shared_ptr<DaedalusInstance> {new HA} : std::shared_ptr<DaedalusInstance> {new HB};
				for (size_t m = 0; m < c.members.size(); ++m)
					for (uint32_t i = 0; i < c.members[m].count; ++i) o.vals[{o.cls * 1000 + (int) m, i}] = fs[(size_t) c.members[m].field].get(fresh.get(), i);
			}
			objs.push_back(o);
			return (int) objs.size() - 1;
		}
		void run(Routine const& r) {
			if (++depth > 40 || ++steps > 3000) pbt::discard();
			int saved = gi;
			auto leave = [&] { gi = saved; --depth; };
			try {
				if (r.proto >= 0) run(protos[(size_t) r.proto]);
				for (auto& t : r.body) step(t);
			} catch (Raised&) {
				leave();
				throw;
			}
			leave();
		}
		void step(Stmt const& t) {
			switch (t.k) {
			case Stmt::SET: case Stmt::ADD: {
				auto ty = classes[(size_t) t.c].members[(size_t) t.m].t;
				if (auto* p = access(gi, t.c, t.m, t.idx)) {
					if (t.k == Stmt::ADD)
						switch (t.b) {
						case 0: p->i = (int32_t) ((uint32_t) p->i + (uint32_t) t.v.i); break;
						case 1: p->i = (int32_t) ((uint32_t) p->i - (uint32_t) t.v.i); break;
						case 2: p->i = (int32_t) ((uint32_t) p->i * (uint32_t) t.v.i); break;
						default: p->i = (int32_t) (int64_t {p->i} / t.v.i);
						}
					else *p = t.v;
					(void) ty;
					++writes;
				}
				break;
			}
			case Stmt::COPY: {
				auto* q = access(gi, t.c2, t.m2, t.idx2);
				auto v = q ? *q : Val {};
				if (auto* p = access(gi, t.c, t.m, t.idx)) { *p = v; ++writes; }
				break;
			}
			case Stmt::USE: gi = cell[t.a]; break;
			case Stmt::CALL: run(funcs[t.a]); break;
			case Stmt::HOOK: {
				expected.push_back({gi, SELF == 0xFFFFFFFF ? -1 : cell[SELF]});
				auto n = hook_calls++;
				if (n < nest.size() && nest[n]) { ++nested; (void) initialise(nest[n]); }
				break;
			}
			case Stmt::FAIL: throw Raised {};
			case Stmt::ASSIGN: cell[t.a] = cell[t.b]; break;
			case Stmt::CONSTSET: if (!const_ok) throw Raised {}; ki = t.v.i; break;
			case Stmt::GLOBAL: g = t.v.i; break;
			}
		}
		bool initialise(uint32_t sym) {
			auto kind = classes[(size_t) inst_class[sym]].kind;
			if (kind == PLAIN || (kind < OPAQUE && !registered(inst_class[sym]))) throw Raised {};
			int o = create(sym);
			cell[sym] = o;
			int old_gi = gi, old_self = SELF == 0xFFFFFFFF ? -1 : cell[SELF];
			gi = o;
			if (SELF != 0xFFFFFFFF) cell[SELF] = o;
			auto back = [&] { gi = old_gi; if (SELF != 0xFFFFFFFF) cell[SELF] = old_self; };
			try {
				run(bodies[body_of[sym]]);
			} catch (Raised&) {
				back();
				throw;
			}
			back();
			return true;
		}
		bool registered(int c) { for (auto& m : classes[(size_t) c].members) if (m.bound) return true; return false; }

		// ---- the library ----
		void real_initialise(uint32_t sym) {
			auto* y = vm->find_symbol_by_index(sym);
			switch (classes[(size_t) inst_class[sym]].kind) {
			case BOUND_A: (void) vm->init_instance<HA>(y); break;
			case BOUND_B: (void) vm->init_instance<HB>(y); break;
			default: (void) vm->init_opaque_instance(y);
			}
		}
		void setup() {
			DaedalusScript sc;
			dat::load(sc, im.encode());
			vm = std::make_unique<DaedalusVm>(std::move(sc), (uint8_t) ((null_ok ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0) | (const_ok ? DaedalusVmExecutionFlag::IGNORE_CONST_SPECIFIER : 0)));
			auto refused = [&](auto const& fn) { try { fn(); return false; } catch (DaedalusScriptError const&) { return true; } };
			for (auto& c : classes) {
				auto name = im.syms[c.sym].name;
				if (!c.members.empty() && s.chance(1, 4)) { // registrations which do not fit change nothing
					auto& m = s.pick(c.members);
					auto mn = im.syms[m.sym].name;
					if (m.t != dat::STRING) CHECK("registration", refused([&] { vm->register_member(mn, &HB::t); }), mn << " was registered as a string");
					if (m.t != dat::FLOAT) CHECK("registration", refused([&] { vm->register_member(mn, &HB::f); }), mn << " was registered as a float");
					if (m.count > 4) CHECK("registration", refused([&] { vm->register_member(mn, &HB::s); }), mn << " was registered with too few elements");
				}
				if (s.chance(1, 8)) CHECK("registration", refused([&] { vm->register_member(name + ".NONE", &HB::t); }) && refused([&] { vm->register_member("G", &HA::i); }), "a symbol which is no member was registered");
				if (c.kind < OPAQUE) {
					auto fs = fields_of(c.kind);
					for (auto& m : c.members) if (m.bound) fs[(size_t) m.field].bind(*vm, im.syms[m.sym].name);
				} else if (c.kind == OPAQUE) vm->register_as_opaque(name);
			}
			vm->register_external("HOOK", [this] {
				seen.push_back({find(vm->unsafe_get_gi()), SELF == 0xFFFFFFFF ? -1 : find(vm->find_symbol_by_index(SELF)->get_instance())});
				auto n = real_hooks++;
				if (n < nest.size() && nest[n]) real_initialise(nest[n]);
			});
			for (auto x : insts) cell[x] = -1;
			for (auto x : vars) cell[x] = -1;
		}
		std::vector<std::shared_ptr<DaedalusInstance>> ids; // in order of first appearance in the library
		int find(std::shared_ptr<DaedalusInstance> const& p) {
			if (!p) return -1;
			for (size_t i = 0; i < ids.size(); ++i) if (ids[i] == p) return 1000 + (int) i;
			ids.push_back(p);
			return 1000 + (int) ids.size() - 1;
		}
		/// Learns which real instance a model object is.
		void identify(int o, std::shared_ptr<DaedalusInstance> const& p, std::string const& where) {
			CHECK("identity", (o < 0) == (p == nullptr), where << (p ? " is an instance" : " is no instance") << ", expected otherwise");
			if (o < 0) return;
			auto& x = objs[(size_t) o];
			if (!x.real) {
				for (size_t i = 0; i < objs.size(); ++i) CHECK("identity", (int) i == o || objs[i].real != p, where << " is instance " << i << ", expected " << o);
				x.real = p;
			}
			CHECK("identity", x.real == p, where << " is another instance than expected");
		}
		Val read(Member const& m, uint32_t i, DaedalusInstance* ctx) {
			auto* y = vm->find_symbol_by_index(m.sym);
			Val v;
			if (m.t == dat::FLOAT) v.f = y->get_float((uint16_t) i, ctx);
			else if (m.t == dat::STRING) v.s = y->get_string((uint16_t) i, ctx);
			else v.i = y->get_int((uint16_t) i, ctx);
			return v;
		}
		void write(Member const& m, uint32_t i, DaedalusInstance* ctx, Val const& v) {
			auto* y = vm->find_symbol_by_index(m.sym);
			if (m.t == dat::FLOAT) y->set_float(v.f, (uint16_t) i, ctx);
			else if (m.t == dat::STRING) y->set_string(v.s, (uint16_t) i, ctx);
			else y->set_int(v.i, (uint16_t) i, ctx);
		}
		void compare(std::string const& after) {
			identify(gi, vm->unsafe_get_gi(), after + ": the current instance");
			for (auto& [sym, o] : cell) identify(o, vm->find_symbol_by_index(sym)->get_instance(), after + ": " + im.syms[sym].name);
			CHECK("hook", seen.size() == expected.size(), after << ": the hook was called " << seen.size() << " times, expected " << expected.size());
			CHECK("global", vm->find_symbol_by_index(G)->get_int() == g, after << ": G is " << vm->find_symbol_by_index(G)->get_int() << ", expected " << g);
			CHECK("constant", vm->find_symbol_by_index(KI)->get_int() == ki, after << ": KI is " << vm->find_symbol_by_index(KI)->get_int() << ", expected " << ki);
			for (size_t o = 0; o < objs.size(); ++o) {
				auto& x = objs[o];
				if (!x.real) continue;
				if (x.which) {
					if (x.which == 1)
						for (auto& [key, v] : x.vals) {
							auto& m = classes[(size_t) (key.first / 1000)].members[(size_t) (key.first % 1000)];
							auto got = read(m, key.second, x.real.get());
							CHECK("transient", got == v, after << ": transient " << im.syms[m.sym].name << "[" << key.second << "] is " << show(m.t, got) << ", expected " << show(m.t, v));
						}
					continue;
				}
				auto& c = classes[(size_t) x.cls];
				std::vector<Field> fs;
				if (c.kind < OPAQUE) fs = fields_of(c.kind);
				for (size_t m = 0; m < c.members.size(); ++m)
					for (uint32_t i = 0; i < c.members[m].count; ++i) {
						auto& want = at((int) o, x.cls, (int) m, i);
						if (c.members[m].bound) {
							auto got = read(c.members[m], i, x.real.get());
							CHECK("member", got == want, after << ": " << im.syms[c.members[m].sym].name << "[" << i << "] of instance " << o << " is " << show(c.members[m].t, got) << ", expected " << show(c.members[m].t, want));
						}
						if (!fs.empty()) {
							auto got = fs[(size_t) c.members[m].field].get(x.real.get(), i);
							CHECK("field", got == want, after << ": the field of " << im.syms[c.members[m].sym].name << "[" << i << "] of instance " << o << " is " << show(c.members[m].t, got) << ", expected " << show(c.members[m].t, want));
						}
					}
			}
		}
		template <typename M, typename R> void both(std::string const& what, M const& model, R const& real) {
			k.log << what << "\n";
			bool a = true, b = true;
			steps = 0; depth = 0;
			try { model(); } catch (Raised&) { a = false; }
			std::string err;
			try { real(); } catch (DaedalusScriptError const& e) { b = false; err = e.what(); }
			CHECK("outcome", a == b, what << (b ? " succeeded" : " failed (" + err + ")") << ", expected otherwise");
			if (!a) ++errors;
			compare(what);
		}
		void history() {
			make();
			print();
			setup();
			for (auto y : insts)
				if (s.chance(3, 4)) both("init " + im.syms[y].name, [&] { initialise(y); }, [&] { real_initialise(y); });
			for (size_t n = 1 + s.len(14); n > 0; --n) {
				auto op = s.weighted({6, 4, 5, 5, 3, 2, 2, 2});
				if (op == 0) {
					auto y = s.pick(insts);
					both("init " + im.syms[y].name, [&] { initialise(y); }, [&] { real_initialise(y); });
				} else if (op == 1 && !funcs.empty()) {
					auto f = s.below(funcs.size());
					both("call FN" + std::to_string(f), [&] { run(funcs[f]); }, [&] { vm->call_function<void>(vm->find_symbol_by_index(funcs[f].sym)); });
				} else if ((op == 2 || op == 3) && !objs.empty()) { // access by the host
					int c, m, o = s.chance(1, 15) ? -1 : (int) s.below(objs.size());
					if (!any_member(c, m, o < 0 ? -1 : objs[(size_t) o].cls)) continue;
					if (o >= 0 && !objs[(size_t) o].real) continue;
					auto mem = classes[(size_t) c].members[(size_t) m];
					auto idx = element(mem);
					auto* ctx = o < 0 ? nullptr : objs[(size_t) o].real.get();
					auto where = im.syms[mem.sym].name + "[" + std::to_string(idx) + "] of " + std::to_string(o);
					Val got, want;
					bool direct = o >= 0 && objs[(size_t) o].which == 0 && objs[(size_t) o].cls == c && idx < mem.count && classes[(size_t) c].kind < OPAQUE && s.flip();
					bool keep = null_ok;
					if (!direct) null_ok = false; // the flag is one of the VM
					if (op == 2) {
						auto v = value(mem.t);
						if (direct) both("host field " + where + "=" + show(mem.t, v), [&] { at(o, c, m, idx) = v; }, [&] { fields_of(classes[(size_t) c].kind)[(size_t) mem.field].set(ctx, idx, v); });
						else both("host " + where + "=" + show(mem.t, v), [&] { *access(o, c, m, idx) = v; }, [&] { write(mem, idx, ctx, v); });
					} else {
						both("host reads " + where, [&] { want = *access(o, c, m, idx); }, [&] { got = read(mem, idx, ctx); });
						CHECK("read", got == want, where << " is read as " << show(mem.t, got) << ", expected " << show(mem.t, want));
					}
					null_ok = keep;
				} else if (op == 4) { // accesses which fit no symbol
					auto& cl = s.pick(classes);
					if (cl.members.empty()) continue;
					auto& m = s.pick(cl.members);
					auto* y = vm->find_symbol_by_index(m.sym);
					auto ctx = objs.empty() ? nullptr : s.pick(objs).real;
					auto how = s.below(5);
					both("wrong access " + std::to_string(how) + " to " + im.syms[m.sym].name, [] { throw Raised {}; }, [&] {
						if (how == 0) m.t == dat::STRING ? (void) y->get_int(0, ctx.get()) : (void) y->get_string(0, ctx.get());
						else if (how == 1) m.t == dat::FLOAT ? y->set_string("w", 0, ctx.get()) : y->set_float(3, 0, ctx.get());
						else if (how == 2) (void) y->get_instance();
						else if (how == 3) y->set_instance(ctx);
						else m.t == dat::INT || m.t == dat::FUNCTION ? (void) y->get_float(0, ctx.get()) : y->set_int(3, 0, ctx.get());
					});
				} else if (op == 5) { // a current instance set by the host
					int o = -1;
					auto how = s.below(4);
					if (how == 0 && !objs.empty()) { o = (int) s.below(objs.size()); if (!objs[(size_t) o].real) continue; }
					if (how == 1) { objs.push_back({0, 1, std::make_shared<Transient>(), {}}); o = (int) objs.size() - 1; }
					if (how == 2) { objs.push_back({0, 2, s.flip() ? std::shared_ptr<DaedalusInstance> {new HA} : std::make_shared<DaedalusInstance>(), {}}); o = (int) objs.size() - 1; }
					both("current instance " + std::to_string(o) + (o >= 0 && objs[(size_t) o].which ? objs[(size_t) o].which == 1 ? " (transient)" : " (not allocated)" : ""), [&] { gi = o; }, [&] { vm->unsafe_set_gi(o < 0 ? nullptr : objs[(size_t) o].real); });
				} else if (op == 6) { // instances which can not be made
					auto how = s.below(6);
					auto y = s.pick(insts);
					auto kind = classes[(size_t) inst_class[y]].kind;
					both("bad init " + std::to_string(how) + " " + im.syms[y].name, [] { throw Raised {}; }, [&] {
						if (how == 0) (void) vm->init_instance<HA>("NO SUCH");
						else if (how == 1) (void) vm->init_instance<HA>("G");
						else if (how == 2) (void) vm->init_opaque_instance(nullptr);
						else if (how == 3) (void) vm->init_opaque_instance(vm->find_symbol_by_index(G));
						else if (how == 4 && kind != BOUND_A) (void) vm->allocate_instance<HA>(vm->find_symbol_by_index(y));
						else if (kind != OPAQUE) (void) vm->init_opaque_instance(vm->find_symbol_by_index(y));
						else vm->register_as_opaque("NO SUCH");
					});
				} else if (op == 7) { // make the instance without running its body
					auto y = s.pick(insts);
					auto kind = classes[(size_t) inst_class[y]].kind;
					if (kind >= OPAQUE) continue;
					both("allocate " + im.syms[y].name, [&] { if (!registered(inst_class[y])) throw Raised {}; cell[y] = create(y); }, [&] {
						if (kind == BOUND_A) (void) vm->allocate_instance<HA>(vm->find_symbol_by_index(y));
						else (void) vm->allocate_instance<HB>(vm->find_symbol_by_index(y));
					});
				}
			}
			// what the hook saw, now that the instances are known
			for (size_t i = 0; i < seen.size(); ++i) {
				auto same = [&](int got, int want) {
					if (want < 0 || got < 0) return want < 0 && got < 0;
					auto& r = objs[(size_t) want].real;
					return !r || r == ids[(size_t) got - 1000];
				};
				CHECK("hook", same(seen[i].first, expected[i].first), "in hook call " << i << " the current instance was another");
				CHECK("hook", same(seen[i].second, expected[i].second), "in hook call " << i << " self was another");
			}
			if (objs.size() > 1 && writes > 2) k.nontrivial();
			if (errors) k.tag("errors");
			if (nested) k.tag("nested");
		}
	};
	// ---- the classes of the games ----
	struct Entry { std::string cls, name, group; Field f; };
	struct Engine { std::string cls; std::vector<Entry> entries; std::function<std::shared_ptr<DaedalusInstance>(DaedalusVm&, char const*)> make; };
	std::vector<Engine> const& engines() {
		static std::vector<Engine> all = [] {
			std::vector<Engine> v;
			auto put = [&](auto tag, Entry e) {
				using C = typename decltype(tag)::type;
				if (v.empty() || v.back().cls != e.cls) v.push_back({e.cls, {}, [](DaedalusVm& vm, char const* n) -> std::shared_ptr<DaedalusInstance> { return vm.allocate_instance<C>(n); }});
				v.back().entries.push_back(std::move(e));
			};
#define E(C, cls, name, fld, group) put(std::type_identity<C> {}, Entry {cls, name, group, field(&C::fld)});
#include "engineclasses.inc"
#undef E
			return v;
		}();
		return all;
	}
	void engine(pbt::Case& k) {
		auto& s = k.src;
		auto const& e = s.pick(engines());
		dat::Image im;
		auto add = [&](std::string n, dat::Type t, uint32_t flags, uint32_t count, int32_t parent) { dat::Sym y; y.name = std::move(n); y.type = t; y.flags = flags; y.count = count; y.parent = parent; im.syms.push_back(y); return (uint32_t) im.syms.size() - 1; };
		add(e.cls, dat::CLASS, 0, 0, -1);
		struct M { uint32_t sym; dat::Type t; uint32_t n; Field const* f; };
		std::vector<M> ms;
		std::map<std::string, bool> groups;
		for (auto& x : e.entries) {
			if (x.group == "?" && s.flip()) continue;
			if (!x.group.empty() && x.group != "?") { if (!groups.count(x.group)) groups[x.group] = s.flip(); if (!groups[x.group]) continue; }
			bool fn = x.f.t == dat::INT && x.f.n == 1 && s.chance(1, 6);
			auto n = x.f.n > 1 && s.chance(1, 3) ? 1 + (uint32_t) s.below(x.f.n) : x.f.n;
			ms.push_back({0, fn ? dat::FUNCTION : x.f.t, n, &x.f});
			ms.back().sym = add(e.cls + "." + x.name, ms.back().t, dat::MEMBER, n, 0);
		}
		im.syms[0].count = (uint32_t) ms.size();
		if (ms.empty()) pbt::discard();
		add("IA", dat::INSTANCE, dat::CONST, 0, 0);
		add("IB", dat::INSTANCE, dat::CONST, 0, 0);
		im.code = {(uint8_t) Op::RSR};
		im.make_sort();
		DaedalusScript sc;
		dat::load(sc, im.encode());
		DaedalusVm vm {std::move(sc)};
		register_all_script_classes(vm);
		k.log << e.cls << " with " << ms.size() << " members\n";
		std::shared_ptr<DaedalusInstance> in[2] {e.make(vm, "IA"), e.make(vm, "IB")};
		std::map<std::tuple<int, size_t, uint32_t>, Val> model;
		auto rd = [&](int w, size_t m, uint32_t i) {
			auto* y = vm.find_symbol_by_index(ms[m].sym);
			Val v;
			if (ms[m].t == dat::FLOAT) v.f = y->get_float((uint16_t) i, in[w].get());
			else if (ms[m].t == dat::STRING) v.s = y->get_string((uint16_t) i, in[w].get());
			else v.i = y->get_int((uint16_t) i, in[w].get());
			return v;
		};
		for (int w = 0; w < 2; ++w)
			for (size_t m = 0; m < ms.size(); ++m)
				for (uint32_t i = 0; i < ms[m].n; ++i) model[{w, m, i}] = ms[m].f->get(in[w].get(), i);
		size_t ops = 1 + s.len(20);
		for (size_t n = ops; n > 0; --n) {
			int w = (int) s.below(2);
			auto m = s.below(ms.size());
			auto i = (uint32_t) s.below(ms[m].n);
			Val v;
			if (ms[m].t == dat::FLOAT) v.f = s.nice(); else if (ms[m].t == dat::STRING) v.s = s.text(30, "abc xyz"); else v.i = s.i32();
			bool host = s.flip();
			k.log << (host ? "host " : "script ") << im.syms[ms[m].sym].name << "[" << i << "] of " << w << " = " << show(ms[m].t, v) << "\n";
			if (host) ms[m].f->set(in[w].get(), i, v);
			else {
				auto* y = vm.find_symbol_by_index(ms[m].sym);
				if (ms[m].t == dat::FLOAT) vm.set_float(in[w], y, (uint16_t) i, v.f);
				else if (ms[m].t == dat::STRING) vm.set_string(in[w], y, (uint16_t) i, v.s);
				else vm.set_int(in[w], y, (uint16_t) i, v.i);
			}
			model[{w, m, i}] = v;
		}
		for (auto& [key, want] : model) {
			auto [w, m, i] = key;
			auto a = rd(w, m, i), b = ms[m].f->get(in[w].get(), i);
			CHECK("engine-member", a == want, im.syms[ms[m].sym].name << "[" << i << "] is " << show(ms[m].t, a) << ", expected " << show(ms[m].t, want));
			CHECK("engine-field", b == want, "the field of " << im.syms[ms[m].sym].name << "[" << i << "] is " << show(ms[m].t, b) << ", expected " << show(ms[m].t, want));
		}
		if (ops > 2) k.nontrivial();
		k.tag(e.cls);
	}
	// A recursive function with local instance variables: with local variables enabled every activation keeps its own,
	// otherwise they are shared by all activations. The instances seen are compared with the model's.
	void recursion(pbt::Case& k) {
		auto& s = k.src;
		dat::Image im;
		auto add = [&](std::string n, dat::Type t, uint32_t flags, uint32_t count, uint32_t vary = 0, int32_t parent = -1) { dat::Sym y; y.name = std::move(n); y.type = t; y.flags = flags; y.count = count; y.vary = vary; y.parent = parent; im.syms.push_back(y); return (uint32_t) im.syms.size() - 1; };
		bool stash = s.chance(3, 4), returns = s.flip(), param = s.flip();
		auto cls = (int32_t) add("CLS", dat::CLASS, 0, 0);
		auto next = add("NEXT", dat::FUNCTION, dat::CONST | dat::EXTERNAL | dat::RETURN, 0, dat::INSTANCE);
		auto more = add("MORE", dat::FUNCTION, dat::CONST | dat::EXTERNAL | dat::RETURN, 0, dat::INT);
		auto see = add("SEE", dat::FUNCTION, dat::CONST | dat::EXTERNAL, 2);
		add("SEE.A", dat::INSTANCE, 0, 0, 0, cls);
		add("SEE.B", dat::INT, 0, 1);
		auto rec = add("REC", dat::FUNCTION, dat::CONST | (returns ? dat::RETURN : 0), param ? 2 : 0, returns ? dat::INSTANCE : dat::VOID);
		uint32_t q = 0, n = 0;
		if (param) q = add("REC.Q", dat::INSTANCE, 0, 0, 0, cls), n = add("REC.N", dat::INT, 0, 1);
		std::vector<uint32_t> inst, ints; // locals
		for (auto i = 1 + s.len(4); i > 0; --i) {
			auto nm = "REC.L" + std::to_string(im.syms.size());
			if (s.chance(2, 3)) inst.push_back(add(nm, dat::INSTANCE, 0, 0, 0, cls));
			else ints.push_back(add(nm, dat::INT, 0, 1));
		}
		if (inst.empty()) inst.push_back(add("REC.LX", dat::INSTANCE, 0, 0, 0, cls));
		auto shared = inst, sharedi = ints;
		auto outer = add("OUTER", dat::INSTANCE, 0, 0, 0, cls);
		shared.push_back(outer);
		if (param) shared.push_back(q), sharedi.push_back(n);

		struct St { int k; uint32_t a = 0, b = 0; }; // 0 a = NEXT, 1 a = b, 2 int a = b, 3 SEE(a, int b), 4 recursive call with result to a, 5 SEE(a, literal b)
		std::vector<St> body;
		for (auto i = 2 + s.len(9); i > 0; --i)
			switch (s.weighted({4, 2, sharedi.empty() ? 0u : 2u, sharedi.empty() ? 0u : 3u, 4, 4})) {
			case 0: body.push_back({0, s.pick(inst)}); break;
			case 1: body.push_back({1, s.pick(shared), s.pick(shared)}); break;
			case 2: body.push_back({2, s.pick(sharedi), (uint32_t) s.below(100)}); break;
			case 3: body.push_back({3, s.pick(shared), s.pick(sharedi)}); break;
			case 4: body.push_back({4, s.pick(inst)}); break;
			default: body.push_back({5, s.pick(shared), (uint32_t) s.below(100)}); break;
			}
		uint32_t result = s.pick(shared);

		dat::Code c;
		c.op(Op::RSR);
		auto addr = c.here();
		im.syms[rec].address = (int32_t) addr;
		if (param) c.op(Op::PUSHV, n), c.op(Op::MOVI), c.op(Op::PUSHVI, q), c.op(Op::MOVVI);
		for (auto& t : body)
			switch (t.k) {
			case 0: c.op(Op::BE, next), c.op(Op::PUSHVI, t.a), c.op(Op::MOVVI); break;
			case 1: c.op(Op::PUSHVI, t.b), c.op(Op::PUSHVI, t.a), c.op(Op::MOVVI); break;
			case 2: c.op(Op::PUSHI, t.b), c.op(Op::PUSHV, t.a), c.op(Op::MOVI); break;
			case 3: c.op(Op::PUSHVI, t.a), c.op(Op::PUSHV, t.b), c.op(Op::BE, see); break;
			case 5: c.op(Op::PUSHVI, t.a), c.op(Op::PUSHI, t.b), c.op(Op::BE, see); break;
			default: {
				c.op(Op::BE, more);
				auto hole = c.hole(Op::BZ);
				if (param) c.op(Op::BE, next), c.op(Op::PUSHI, 7);
				c.op(Op::BL, addr);
				if (returns) c.op(Op::PUSHVI, t.a), c.op(Op::MOVVI);
				c.fill(hole, c.here());
			}
			}
		if (returns) c.op(Op::PUSHVI, result);
		c.op(Op::RSR);
		im.code = c.b;
		im.make_sort();
		DaedalusScript sc;
		dat::load(sc, im.encode());
		DaedalusVm vm {std::move(sc)};
		vm.find_symbol_by_index(rec)->set_local_variables_enable(stash);

		std::vector<std::shared_ptr<DaedalusInstance>> pool;
		for (int i = 0; i < 6; ++i) pool.push_back(std::make_shared<HA>());
		auto id = [&](DaedalusInstance const* p) -> int { for (size_t i = 0; i < pool.size(); ++i) if (pool[i].get() == p) return (int) i; return p ? 99 : -1; };
		std::vector<int> hand, go;
		for (int i = 0; i < 60; ++i) hand.push_back((int) s.below(6));
		for (auto i = s.len(10); i > 0; --i) go.push_back(s.chance(2, 3));
		size_t hp = 0, gp = 0;
		using Seen = std::vector<std::pair<int, int>>;
		Seen got, want;
		vm.register_external("NEXT", [&]() -> std::shared_ptr<DaedalusInstance> { return pool[hand[hp++ % 60]]; });
		vm.register_external("MORE", [&]() -> int { return gp < go.size() ? go[gp++] : 0; });
		vm.register_external("SEE", [&](std::shared_ptr<DaedalusInstance> a, int b) { got.emplace_back(id(a.get()), b); });

		std::map<uint32_t, int> im_, ii; // what the variables hold
		for (auto v : shared) im_[v] = -1;
		for (auto v : sharedi) ii[v] = 0;
		size_t mh = 0, mg = 0, depth = 0, deepest = 0;
		std::function<int(int, int)> run = [&](int a, int b) -> int {
			std::map<uint32_t, int> keep, keepi;
			bool save = stash && depth > 0;
			for (auto v : inst) keep[v] = im_[v];
			for (auto v : ints) keepi[v] = ii[v];
			deepest = std::max(deepest, ++depth);
			if (param) im_[q] = a, ii[n] = b;
			for (auto& t : body)
				switch (t.k) {
				case 0: im_[t.a] = hand[mh++ % 60]; break;
				case 1: im_[t.a] = im_[t.b]; break;
				case 2: ii[t.a] = (int) t.b; break;
				case 3: want.emplace_back(im_[t.a], ii[t.b]); break;
				case 5: want.emplace_back(im_[t.a], (int) t.b); break;
				default:
					if (!(mg < go.size() ? go[mg++] : 0)) break;
					int x = -1;
					if (param) x = hand[mh++ % 60];
					int r = run(x, 7);
					if (returns) im_[t.a] = r;
				}
			int r = im_[result];
			--depth;
			if (save) {
				for (auto& [v, x] : keep) im_[v] = x;
				for (auto& [v, x] : keepi) ii[v] = x;
			}
			return r;
		};
		int mres = -2, res = -2;
		auto* f = vm.find_symbol_by_index(rec);
		for (int round = 0; round < 2; ++round) {
			mres = run(param ? 3 : -1, 11);
			using Ref = std::shared_ptr<DaedalusInstance>;
			if (returns) res = id((param ? vm.call_function<Ref>(f, Ref(pool[3]), 11) : vm.call_function<Ref>(f)).get());
			else if (param) vm.call_function(f, Ref(pool[3]), 11);
			else vm.call_function(f);
			if (returns) CHECK("recursion-result", res == mres, "the function returned instance " << res << ", expected " << mres);
		}
		k.log << (stash ? "own" : "shared") << " locals, " << inst.size() << " instances, " << ints.size() << " ints, params " << param << ", returns " << returns << ", deepest " << deepest << ", body";
		for (auto& t : body) k.log << " " << t.k << "(" << t.a << "," << t.b << ")";
		for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
			CHECK("recursion", i < got.size() && i < want.size() && got[i] == want[i], "observation " << i << " is "
			    << (i < got.size() ? std::to_string(got[i].first) + "/" + std::to_string(got[i].second) : "missing") << ", expected "
			    << (i < want.size() ? std::to_string(want[i].first) + "/" + std::to_string(want[i].second) : "none"));
		for (auto v : shared) CHECK("recursion-after", id(vm.find_symbol_by_index(v)->get_instance().get()) == im_[v], im.syms[v].name << " holds another instance than expected afterwards");
		if (deepest > 1 && !want.empty()) k.nontrivial();
	}
	void instances(pbt::Case& k) { Test t {k}; t.history(); }
} // namespace

int main(int argc, char** argv) {
	pbt::Config cfg {"C24", "two or more instances exist and more than two members were written",
		{"each host class is bound to one script class"},
		{{"instances", 60000, 20, instances}, {"engine", 20000, 20, engine}, {"recursion", 30000, 20, recursion}}};
	return pbt::main(argc, argv, cfg);
}
