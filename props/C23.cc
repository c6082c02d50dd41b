// C23: calls between host and script are type-checked, balanced and recover from errors.
#include "daerun.hh"
#include "chaos.hh"
#include "vmstack.hh"
void c23_signatures(pbt::Case&);
using namespace zenkit;

static std::vector<dae::Strategy> plan(pbt::Src& s) {
	std::vector<dae::Strategy> p;
	int mode = (int) s.below(4);
	for (size_t n = s.len(12); n > 0; --n) p.push_back(mode == 0 ? dae::CONTINUE : mode == 1 ? dae::RETURN : (dae::Strategy) s.below(3));
	return p;
}
static void faults(pbt::Case& k) {
	dae::Gen g {k.src, {true, true}, {}};
	auto p = g.make();
	auto st = plan(k.src);
	dae::history(k, p, &st, 6);
}
static void unhandled(pbt::Case& k) {
	dae::Gen g {k.src, {true, true}, {}};
	auto p = g.make();
	dae::history(k, p, nullptr, 6);
}

// Calls which only a default external takes: the arguments are gone, a zero is left, also when it throws and is continued.
static void fallback(pbt::Case& k) {
	using namespace dat;
	auto& s = k.src;
	Image im;
	auto add = [&](std::string n, Type t, uint32_t flags, uint32_t count) -> Sym& { Sym y; y.name = n; y.type = t; y.flags = flags; y.count = count; im.syms.push_back(y); return im.syms.back(); };
	add("CO", CLASS, 0, 0);
	add("VI", INT, 0, 1), add("VF", FLOAT, 0, 1), add("VS", STRING, 0, 1), add("VX", INSTANCE, 0, 0).parent = 0, add("VP", FUNCTION, 0, 1);
	static Type const T[] {INT, FLOAT, STRING, INSTANCE, FUNCTION};
	struct Ext { uint32_t sym; Type ret; std::vector<Type> par; bool raises; };
	std::vector<Ext> ext;
	for (size_t i = 0, n = 1 + s.below(4); i < n; ++i) {
		Ext e {(uint32_t) im.syms.size(), s.chance(1, 4) ? VOID : T[s.below(5)], {}, s.chance(1, 3)};
		for (size_t j = s.below(4); j > 0; --j) e.par.push_back(T[s.below(5)]);
		auto name = "EX" + std::to_string(i);
		add(name, FUNCTION, CONST | EXTERNAL | (e.ret ? RETURN : 0u), (uint32_t) e.par.size()).vary = e.ret;
		for (size_t j = 0; j < e.par.size(); ++j) { auto& p = add(name + ".P" + std::to_string(j), e.par[j], 0, e.par[j] == INSTANCE ? 0 : 1); if (e.par[j] == INSTANCE) p.parent = 0; }
		k.log << name << "(" << e.par.size() << "):" << e.ret << (e.raises ? " raises; " : "; ");
		ext.push_back(e);
	}
	auto f = (uint32_t) im.syms.size();
	add("MAIN", FUNCTION, CONST | RETURN, 0).vary = INT;
	Code c;
	im.syms[f].address = 0;
	std::vector<size_t> calls;
	for (size_t n = 1 + s.len(6); n > 0; --n) {
		auto i = s.below(ext.size());
		auto& e = ext[i];
		calls.push_back(i);
		for (auto t : e.par) {
			if (t == INT || t == FUNCTION) c.op(Op::PUSHI, (uint32_t) s.below(5));
			else if (t == FLOAT) c.op(Op::PUSHV, 2);
			else if (t == STRING) c.op(Op::PUSHV, 3);
			else c.op(Op::PUSHVI, 4);
		}
		c.op(Op::BE, e.sym);
		switch (e.ret) { // the result replaces what the variable held
		case INT: c.op(Op::PUSHV, 1), c.op(Op::MOVI); break;
		case FLOAT: c.op(Op::PUSHV, 2), c.op(Op::MOVF); break;
		case STRING: c.op(Op::PUSHV, 3), c.op(Op::MOVS); break;
		case FUNCTION: c.op(Op::PUSHV, 5), c.op(Op::MOVVF); break;
		case INSTANCE: c.op(Op::PUSHVI, 4), c.op(Op::MOVVI); break;
		default: break;
		}
	}
	c.op(Op::PUSHI, 4711), c.op(Op::RSR);
	im.make_sort();
	im.code = c.b;
	DaedalusScript sc;
	dat::load(sc, im.encode());
	DaedalusVm vm {std::move(sc)};
	vm.register_as_opaque("CO");
	std::vector<uint32_t> got;
	size_t raised = 0;
	auto called = [&](uint32_t index) {
		got.push_back(index);
		for (auto& e : ext) if (e.sym == index && e.raises) { ++raised; throw DaedalusScriptError {"raised"}; }
	};
	auto how = s.below(3);
	size_t early = s.below(4);
	if (how == 2) vm.register_default_external_custom([&](DaedalusVm& v, DaedalusSymbol& y) { // takes what it wants before it throws
		Ext const* e = nullptr;
		for (auto& x : ext) if (x.sym == y.index()) e = &x;
		size_t n = e->raises ? std::min(early, e->par.size()) : e->par.size();
		for (size_t i = 0; i < n; ++i) switch (e->par[e->par.size() - 1 - i]) {
			case INT: case FUNCTION: (void) v.pop_int(); break;
			case FLOAT: (void) v.pop_float(); break;
			case STRING: (void) v.pop_reference(); break;
			default: (void) v.pop_instance(); break;
		}
		called(y.index());
		switch (e->ret) {
		case INT: case FUNCTION: v.push_int(0); break;
		case FLOAT: v.push_float(0); break;
		case STRING: v.push_string(""); break;
		case INSTANCE: v.push_instance(nullptr); break;
		default: break;
		}
	});
	else if (how == 0) vm.register_default_external([&](std::string_view n) { called(vm.find_symbol_by_name(n)->index()); });
	else vm.register_default_external([&](DaedalusSymbol const& y) { called(y.index()); });
	vm.register_exception_handler([](DaedalusVm&, DaedalusScriptError const&, DaedalusInstruction const&) { return DaedalusVmExceptionStrategy::CONTINUE; });
	auto* vi = vm.find_symbol_by_name("VI");
	auto* vf = vm.find_symbol_by_name("VF");
	auto* vs = vm.find_symbol_by_name("VS");
	auto* vx = vm.find_symbol_by_name("VX");
	auto* vp = vm.find_symbol_by_name("VP");
	std::shared_ptr<DaedalusInstance> thing = std::make_shared<vmstack::Thing>();
	vi->set_int(7), vf->set_float(7), vs->set_string("7"), vx->set_instance(thing), vp->set_int(7);
	vm.push_int(99);
	auto r = vm.call_function<int>(vm.find_symbol_by_name("MAIN"));
	CHECK("default-result", r == 4711, "the function returned " << r << " instead of 4711");
	CHECK("default-balance", vm.pop_int() == 99, "the stack is not as before the call");
	bool same = got.size() == calls.size();
	for (size_t i = 0; same && i < got.size(); ++i) same = got[i] == ext[calls[i]].sym;
	CHECK("default-calls", same, got.size() << " calls arrived instead of " << calls.size());
	bool set[5] {};
	for (auto i : calls) for (int t = 0; t < 5; ++t) if (T[t] == ext[i].ret) set[t] = true;
	CHECK("default-zero", vi->get_int() == (set[0] ? 0 : 7), "int result is " << vi->get_int());
	CHECK("default-zero", vf->get_float() == (set[1] ? 0 : 7), "float result is " << vf->get_float());
	CHECK("default-zero", vs->get_string() == (set[2] ? "" : "7"), "string result is " << pbt::quote(vs->get_string()));
	CHECK("default-zero", vx->get_instance() == (set[3] ? nullptr : thing), "instance result is wrong");
	CHECK("default-zero", vp->get_int() == (set[4] ? 0 : 7), "function result is " << vp->get_int());
	if (raised) k.tag("raised");
	k.nontrivial();
}

int main(int argc, char** argv) {
	pbt::Config cfg {"C23", "a call inside the program was made and more than twenty steps were executed",
		{"an error in an arithmetic operation that is continued leaves the missing result to the handler, which supplies a zero"},
		{{"faults", 25000, 20, faults}, {"unhandled", 10000, 20, unhandled}, {"chaos", 60000, 20, chaos::run}, {"signatures", 60000, 20, c23_signatures}, {"stack", 60000, 20, vmstack::run}, {"fallback", 40000, 20, fallback}}};
	return pbt::main(argc, argv, cfg);
}
