// C27: damaged assets and scripts are rejected or loaded without harm.
#include "assetgen.hh"
#include "symgen.hh"
#include "pbt.hh"
#include <filesystem>
#include <zenkit/Model.hh>
#include <zenkit/addon/texcvt.hh>
using namespace zenkit;
namespace fs = std::filesystem;
using ::Bytes;

using namespace ag;
namespace {
	struct Sample { std::string name; Bytes data; };
	std::vector<Sample> samples;
	/// Every byte of a container can be looked at.
	template <typename T> void touch(T const& v) {
		uint64_t sum = 0;
		for (auto& x : v) for (size_t i = 0; i < sizeof x; ++i) sum += reinterpret_cast<uint8_t const*>(&x)[i];
		volatile uint64_t sink = sum;
		(void) sink;
	}
	template <typename F> void store(pbt::Case& k, F&& f) {
		Bytes b;
		auto w = Write::to(&b);
		try { f(w.get()); } catch (Error const&) { k.tag("not saved"); }
	}
	void use(pbt::Case& k, Texture& t) {
		for (uint32_t i = 0; i < t.mipmaps() && i < 40; ++i) {
			touch(t.data(i));
			try {
				auto v = t.as_rgba8(i);
				CHECK("rgba-size", v.size() == size_t(4) * t.mipmap_width(i) * t.mipmap_height(i), "level " << i << " of " << t.mipmap_width(i) << "x" << t.mipmap_height(i) << " has " << v.size() << " bytes");
			} catch (Error const&) { k.tag("not converted"); }
		}
		store(k, [&](Write* w) { t.save(w); });
		try { (void) to_dds(t); } catch (Error const&) { k.tag("no dds"); }
	}
	void use(pbt::Case& k, Font& f) { touch(f.name), touch(f.glyphs), store(k, [&](Write* w) { f.save(w); }); }
	void use(pbt::Case& k, Mesh& m) { store(k, [&](Write* w) { m.save(w, GameVersion::GOTHIC_2); }); }
	void use(pbt::Case& k, ModelHierarchy& h) { store(k, [&](Write* w) { h.save(w); }); }
	void use(pbt::Case& k, MultiResolutionMesh& m) { store(k, [&](Write* w) { m.save(w, GameVersion::GOTHIC_2); }); }
	void use(pbt::Case& k, ModelMesh& m) { store(k, [&](Write* w) { m.save(w, GameVersion::GOTHIC_1); }); }
	void use(pbt::Case& k, Model& m) { store(k, [&](Write* w) { m.save(w, GameVersion::GOTHIC_1); }); }
	void use(pbt::Case&, ModelAnimation& a) {
		touch(a.samples), touch(a.node_indices), touch(a.name), touch(a.source_script);
		for (auto& e : a.events) { touch(e.tag); for (auto& c : e.content) touch(c); }
	}
	void use(pbt::Case& k, MorphMesh& m) {
		use(k, m.mesh);
		touch(m.morph_positions);
		for (auto& a : m.animations) {
			CHECK("morph-samples", a.samples.size() == uint64_t(a.vertices.size()) * a.frame_count, a.samples.size() << " samples for " << a.vertices.size() << " vertices and " << a.frame_count << " frames");
			touch(a.samples), touch(a.vertices);
		}
	}
	void use(pbt::Case&, ModelScript& m) {
		touch(m.skeleton.name);
		for (auto& a : m.animations) {
			touch(a.name), touch(a.next), touch(a.model);
			for (auto& e : a.events) touch(e.slot), touch(e.item), touch(e.frames);
			for (auto& e : a.sfx) touch(e.name);
			for (auto& e : a.pfx) touch(e.name);
		}
		for (auto& a : m.combinations) touch(a.name), touch(a.next), touch(a.model);
		for (auto& a : m.aliases) touch(a.name), touch(a.next), touch(a.alias);
		for (auto& a : m.meshes) touch(a);
		for (auto& a : m.disabled_animations) touch(a);
	}
	template <typename T> void load_as(pbt::Case& k, Bytes const& file) {
		Opened e {file};
		auto r = e.open(k.src.chance(1, 4) ? int(k.src.below(Opened::KINDS)) : Opened::MEMORY);
		dmg::Bounded mem {file.size()};
		T x {};
		bool ok = false;
		try {
			if constexpr (std::is_same_v<T, Mesh>) x.load(r.get(), k.src.chance(1, 8));
			else x.load(r.get());
			ok = true;
		} catch (Error const& err) {
			k.tag("rejected");
			k.log << "\nrejected: " << err.what();
		} catch (std::exception const& err) { pbt::fail("foreign-error", std::string("not an error of the library: ") + err.what()); }
		k.nontrivial();
		mem.check();
		if (!ok) return;
		k.tag("loaded");
		try {
			use(k, x);
		} catch (std::exception const& err) { pbt::fail("foreign-error-use", std::string("what was loaded cannot be used: ") + err.what()); }
		mem.check();
	}
	void load_it(pbt::Case& k, int kind, Bytes const& f) {
		k.log << "\n" << f.size() << " bytes as " << NAME[kind];
		k.tag(NAME[kind]);
		switch (kind) {
		case TEX: load_as<Texture>(k, f); break;
		case FNT: load_as<Font>(k, f); break;
		case MSH: load_as<Mesh>(k, f); break;
		case MDH: load_as<ModelHierarchy>(k, f); break;
		case MRM: load_as<MultiResolutionMesh>(k, f); break;
		case MDM: load_as<ModelMesh>(k, f); break;
		case MDL: load_as<Model>(k, f); break;
		case MAN: load_as<ModelAnimation>(k, f); break;
		case MMB: load_as<MorphMesh>(k, f); break;
		default: load_as<ModelScript>(k, f);
		}
	}
	void assets(pbt::Case& k) {
		int kind = int(k.src.below(MDS));
		auto b = make(k, kind);
		damage(k, kind, b);
		load_it(k, k.src.chance(1, 40) ? int(k.src.below(KINDS)) : kind, b);
	}
	void model_scripts(pbt::Case& k) {
		auto& s = k.src;
		int kind = s.flip() ? MDS : MSB;
		auto b = make(k, kind);
		if (kind == MDS) {
			for (size_t i = 0, n = s.below(4); i < n; ++i) words(s, b, k.log);
			if (s.flip()) damage(k, kind, b);
		} else damage(k, kind, b);
		load_it(k, kind, b);
		k.log << "\n" << (kind == MDS ? pbt::quote(std::string(reinterpret_cast<char const*>(b.data()), std::min<size_t>(b.size(), 1500))) : "");
	}
	void originals(pbt::Case& k) {
		auto& s = k.src;
		auto& [name, data] = s.pick(samples);
		auto ext = name.substr(name.rfind('.') + 1);
		for (auto& c : ext) c = char(toupper(c));
		if (data.size() > 100000 && !s.chance(1, 10)) pbt::discard(); // large
		int kind = ext == "TEX" ? TEX : ext == "FNT" ? FNT : ext == "MSH" ? MSH : ext == "MDH" ? MDH : ext == "MRM" ? MRM : ext == "MDM" ? MDM : ext == "MDL" ? MDL : ext == "MAN" ? MAN : ext == "MMB" ? MMB : ext == "MDS" ? MDS : MSB;
		k.log << name << ":";
		Bytes b = data;
		damage(k, kind, b);
		load_it(k, kind, b);
	}

	/* ---- compiled scripts ---- */
	void look(pbt::Case& k, DaedalusScript& sc) {
		auto& s = k.src;
		auto const& cs = sc;
		size_t n = sc.symbols().size();
		for (uint32_t i = 0; i < n + 2; ++i) {
			auto* y = sc.find_symbol_by_index(i);
			CHECK("by-index", (y != nullptr) == (i < n), "symbol " << i << " of " << n);
			if (!y) continue;
			CHECK("index", y->index() == i, "symbol " << i << " has index " << y->index());
			auto* q = sc.find_symbol_by_name(y->name());
			(void) q;
			(void) sc.find_symbol_by_address(y->address());
			(void) sc.find_symbol_by_index(y->parent());
			touch(y->name());
			auto in = [&](auto span, char const* what) {
				CHECK("extent", span.empty() || (span.data() >= sc.symbols().data() && span.data() + span.size() <= sc.symbols().data() + n), what << " of symbol " << i << " reach outside of the table of " << n);
				for (auto& p : span) touch(p.name());
			};
			in(sc.find_parameters_for_function(y), "parameters");
			in(cs.find_parameters_for_function(y), "parameters");
			in(sc.find_locals_for_function(y), "locals");
			for (auto* m : sc.find_class_members(*y)) touch(m->name());
			auto ask = [&](auto f) {
				try { f(); k.tag("value"); } catch (Error const&) { k.tag("no value"); }
			};
			for (uint16_t ix : {uint16_t(0), uint16_t(y->count() ? y->count() - 1 : 0), uint16_t(y->count()), uint16_t(s.below(5000))}) {
				ask([&] { (void) y->get_int(ix); });
				ask([&] { (void) y->get_float(ix); });
				ask([&] { touch(y->get_string(ix)); });
				ask([&] { y->set_int(1, ix); });
				ask([&] { y->set_float(1.f, ix); });
				ask([&] { y->set_string("a longer text than any buffer", ix); });
			}
			ask([&] { (void) y->get_instance(); });
		}
		(void) sc.find_symbol_by_name(s.ident(6));
		(void) sc.find_symbol_by_address(s.u32());
		for (uint32_t i = 0; i < n; ++i) sc.enumerate_instances_by_class_name(sc.symbols()[i].name(), [&](DaedalusSymbol& x) { CHECK("enumerated", x.type() == DaedalusDataType::INSTANCE, "not an instance"); });
		auto code = sc.size();
		for (uint32_t a = 0; a < code + 3;) {
			try {
				auto in = sc.instruction_at(a);
				CHECK("instruction-size", in.size >= 1 && in.size <= 6, "size " << int(in.size));
				a += in.size;
			} catch (Error const&) { ++a; k.tag("no instruction"); }
		}
		for (int i = 0; i < 3; ++i) try { (void) sc.instruction_at(s.u32()); } catch (Error const&) {}
	}
	/// Code from `at` on goes straight to its end.
	bool straight(DaedalusScript& sc, uint32_t at) {
		for (uint32_t size = sc.size(); at < size;) {
			DaedalusInstruction in;
			try { in = sc.instruction_at(at); } catch (Error const&) { return true; }
			if (in.op == DaedalusOpcode::BL || in.op == DaedalusOpcode::BZ || in.op == DaedalusOpcode::B) return false;
			if (in.op == DaedalusOpcode::RSR) return true;
			at += in.size;
		}
		return true;
	}
	void execute(pbt::Case& k, DaedalusScript&& script) {
		auto& s = k.src;
		std::vector<uint32_t> run;
		for (auto& y : script.symbols())
			if ((y.type() == DaedalusDataType::FUNCTION || y.type() == DaedalusDataType::INSTANCE || y.type() == DaedalusDataType::PROTOTYPE) && straight(script, y.address())) run.push_back(y.index());
		std::set<uint32_t> bad; // instances whose code, or that of their prototypes, does not
		for (auto& y : script.symbols()) if (!straight(script, y.address())) bad.insert(y.index());
		DaedalusVm vm {std::move(script), uint8_t(s.flip() ? DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0)};
		if (s.flip()) vm.register_default_external([](std::string_view) {});
		if (s.flip()) vm.register_exception_handler(lenient_vm_exception_handler);
		auto ask = [&](char const* what, auto f) {
			try { f(); k.tag(std::string(what) + " done"); } catch (Error const&) { k.tag(std::string(what) + " refused"); }
		};
		for (auto& y : vm.symbols()) if (y.type() == DaedalusDataType::CLASS && s.chance(3, 4)) ask("opaque", [&] { vm.register_as_opaque(y.name()); });
		for (size_t i = 0, n = s.len(10); i < n && !run.empty(); ++i) {
			auto* y = vm.find_symbol_by_index(s.pick(run));
			k.log << " run " << y->index();
			if (y->type() == DaedalusDataType::INSTANCE && s.chance(4, 5)) ask("instance", [&] { vm.init_opaque_instance(y); });
			else ask("call", [&] {
				for (auto& p : vm.find_parameters_for_function(y)) {
					if (p.type() == DaedalusDataType::FLOAT) vm.push_float(1);
					else if (p.type() == DaedalusDataType::STRING) vm.push_string("x");
					else if (p.type() == DaedalusDataType::INSTANCE) vm.push_instance(nullptr);
					else if (s.chance(9, 10)) vm.push_int(1);
				}
				vm.unsafe_call(y);
			});
		}
		for (auto& y : vm.symbols()) {
			(void) vm.find_parameters_for_function(&y);
			if (s.chance(1, 6)) ask("external", [&] { vm.register_external(y.name(), [](int, std::string_view) { return 1; }); });
			if (s.chance(1, 6)) ask("external", [&] { vm.register_external(y.name(), [] {}); });
			if (s.chance(1, 6)) ask("override", [&] { vm.override_function(y.name(), [](float) { return std::string("x"); }); });
			if (s.chance(1, 6)) ask("global", [&] { vm.find_symbol_by_index(y.index())->set_instance(nullptr); });
		}
	}
	void scripts(pbt::Case& k) {
		auto& s = k.src;
		dat::Gen g {s, {}, {}, {}, {}, {}, {}, {}, 0};
		dat::table(s, g, 10);
		auto& S = g.im.syms;
		dat::Code c;
		bool wild = s.chance(1, 4);
		for (size_t n = s.len(30); n > 0; --n) {
			if (wild) { c.u8(s.u8()); continue; }
			auto sym = [&] { return s.chance(1, 20) ? s.u32() : uint32_t(s.below(S.size())); };
			static DaedalusOpcode const simple[] {DaedalusOpcode::ADD, DaedalusOpcode::SUB, DaedalusOpcode::DIV, DaedalusOpcode::MOVI, DaedalusOpcode::MOVS, DaedalusOpcode::MOVF, DaedalusOpcode::MOVSS, DaedalusOpcode::MOVVI, DaedalusOpcode::MOVVF, DaedalusOpcode::ADDMOVI, DaedalusOpcode::NOP, DaedalusOpcode::NEGATE};
			switch (s.below(6)) {
			case 0: c.op(DaedalusOpcode::PUSHV, sym()); break;
			case 1: c.op(s.flip() ? DaedalusOpcode::PUSHI : DaedalusOpcode::PUSHVI, sym()); break;
			case 2: c.pushvv(sym(), uint32_t(s.below(s.flip() ? 3 : 256))); break;
			case 3: c.op(s.flip() ? DaedalusOpcode::BE : DaedalusOpcode::GMOVI, sym()); break;
			case 4: c.op(DaedalusOpcode::RSR); break;
			default: c.op(s.pick(std::vector<DaedalusOpcode>(std::begin(simple), std::end(simple))));
			}
		}
		if (s.chance(4, 5)) c.op(DaedalusOpcode::RSR);
		g.im.code = c.b;
		for (auto& y : S) if (y.address >= 0 && !c.b.empty() && s.chance(9, 10)) y.address = int32_t(s.below(c.b.size()));
		g.im.make_sort();
		// symbols which contradict one another
		std::ostringstream what;
		for (size_t n = s.below(5); n > 0; --n) {
			auto i = s.below(S.size());
			auto& y = S[i];
			what << " symbol " << i;
			switch (s.below(7)) {
			case 0: y.type = dat::Type(s.below(16)); what << " type " << y.type; break;
			case 1: y.count = s.flip() ? uint32_t(s.below(6)) : uint32_t(s.below(4096)); what << " count " << y.count; break;
			case 2: y.flags = uint32_t(s.below(64)); what << " flags " << y.flags; break;
			case 3: y.parent = s.chance(2, 3) ? int32_t(s.below(S.size())) : s.i32(); what << " parent " << y.parent; break;
			case 4: y.address = s.chance(2, 3) ? int32_t(s.below(40)) : s.i32(); what << " address " << y.address; break;
			case 5: y.vary = s.u32() ; what << " vary " << y.vary; break;
			default: y.name = S[s.below(S.size())].name; what << " name " << pbt::quote(y.name);
			}
		}
		k.log << S.size() << " symbols, " << c.b.size() << " bytes of code:" << what.str();
		auto raw = g.im.encode();
		Bytes b;
		for (auto x : raw) b.push_back(std::byte(x));
		if (s.flip()) for (size_t i = 0, n = 1 + s.below(2); i < n && !b.empty(); ++i) {
			switch (s.below(4)) {
			case 0: mutate(s, b, k.log); break;
			case 1: counts(s, b, k.log); break;
			case 2: dmg::text(s, b, k.log); break;
			default: { size_t c2 = s.below(b.size()); k.log << " cut@" << c2; b.resize(c2); }
			}
		}
		Opened e {b};
		auto r = e.open(s.chance(1, 4) ? int(s.below(Opened::KINDS)) : Opened::MEMORY);
		dmg::Bounded mem {b.size() * 64};
		DaedalusScript sc;
		bool ok = false;
		try {
			sc.load(r.get());
			ok = true;
		} catch (Error const& err) {
			k.tag("rejected");
			k.log << "\nrejected: " << err.what();
		} catch (std::exception const& err) { pbt::fail("foreign-error", std::string("not an error of the library: ") + err.what()); }
		k.nontrivial();
		mem.check();
		if (!ok) return;
		k.tag("loaded");
		try {
			if (s.flip()) look(k, sc);
			else execute(k, std::move(sc));
		} catch (Error const& err) {
			pbt::fail("library-error-use", std::string("an error from a lookup: ") + err.what());
		} catch (std::exception const& err) { pbt::fail("foreign-error-use", std::string("what was loaded cannot be used: ") + err.what()); }
		mem.check();
	}
}
int main(int argc, char** argv) {
	quiet();
	static std::set<std::string> const exts {".tex", ".fnt", ".msh", ".mdh", ".mrm", ".mdm", ".mdl", ".man", ".mmb", ".mds", ".msb"};
	std::error_code ec;
	for (auto& p : fs::recursive_directory_iterator("/repo/tests/samples", ec)) {
		auto x = p.path().extension().string();
		for (auto& c : x) c = char(tolower(c));
		if (exts.count(x)) samples.push_back({p.path().string(), read_file(p.path())});
	}
	std::sort(samples.begin(), samples.end(), [](auto& a, auto& b) { return a.name < b.name; });
	pbt::Config cfg {"C27",
	    "Generated textures, fonts, meshes, model hierarchies, multi-resolution meshes, model meshes, models, animations, morph meshes, model scripts (source and compiled) and compiled scripts with 1-3 changes (flips, fields, counts, blocks, lines, words, cuts; symbols which contradict one another), and the samples damaged likewise; run under AddressSanitizer on exact-size buffers with a limit of 10 s per case and of 64 MB plus 512 times the file for one allocation. What was loaded is saved again, converted, looked up or executed. Non-trivial: the file was loaded and used or it was rejected with a library error.",
	    {"Nesting deeper than what fits on the stack (about ten thousand levels) is not generated.", "Damaged scripts are only executed where their code has no jumps, which may loop for good reason."},
	    {{"assets", 200000, 30, assets}, {"model_scripts", 60000, 30, model_scripts}, {"originals", 60000, 30, originals}, {"scripts", 100000, 30, scripts}}};
	return pbt::main(argc, argv, cfg);
}
