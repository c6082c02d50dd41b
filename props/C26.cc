// C26: damaged object archives are rejected or loaded without harm.
#include "objgen.hh"
#include "savegen.hh"
#include "pbt.hh"
#include <filesystem>
#include <zenkit/CutsceneLibrary.hh>
using namespace fld;
namespace fs = std::filesystem;

using objgen::generated;
namespace {
	std::vector<std::pair<std::string, Bytes>> samples;

	void use(pbt::Case& k, std::shared_ptr<Object> const& o, GameVersion g) {
		if (!o) return;
		k.tag("loaded");
		k.nontrivial();
		(void) o->get_object_type();
		if (auto* lib = dynamic_cast<CutsceneLibrary*>(o.get()); lib && o->get_object_type() == T::zCCSLib) {
			for (auto& b : lib->blocks) if (b) (void) b->get_message();
			(void) lib->block_by_name("A");
		}
		// what was loaded can be looked at: saving touches all of it
		Bytes out;
		auto w = Write::to(&out);
		try {
			auto ar = WriteArchive::to(w.get(), k.src.pick({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE}));
			ar->write_object(o, g);
			ar->write_header();
		} catch (Error const&) { k.tag("not saved"); }
	}
	void load_it(pbt::Case& k, Bytes const& file, GameVersion g, bool world) {
		auto& s = k.src;
		if (s.chance(1, 8)) g = g == GameVersion::GOTHIC_1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		auto how = world ? s.below(4) : s.below(2);
		k.log << "\n" << file.size() << " bytes as " << (g == GameVersion::GOTHIC_1 ? "g1" : "g2") << " way " << how;
		Opened e {file};
		auto r = e.open(k.src.chance(1, 4) ? int(k.src.below(Opened::KINDS)) : Opened::MEMORY);
		dmg::Bounded mem {file.size()};
		std::shared_ptr<Object> got;
		try {
			if (how >= 2) {
				auto w = std::make_shared<World>();
				if (how == 2) w->load(r.get(), g);
				else g = w->load(r.get());
				got = w;
			} else {
				auto ar = ReadArchive::from(r.get());
				for (int i = 0; i < 3 && !r->eof(); ++i) {
					got = ar->read_object(g);
					if (how == 1) use(k, got, g), got.reset();
				}
			}
		} catch (Error const& x) {
			k.tag("rejected");
			k.nontrivial();
			k.log << "\nrejected: " << x.what();
		} catch (std::exception const& x) { pbt::fail("foreign-error", std::string("not an error of the library: ") + x.what()); }
		mem.check();
		use(k, got, g);
	}
	// The entries are damaged, the encoding is intact
	void entries(pbt::Case& k) {
		auto& s = k.src;
		Ctx c = gen_ctx(s);
		bool world = false;
		auto b = generated(k, c, world);
		load_it(k, b, c.g, world);
	}
	// The encoding is damaged, too
	void bytes(pbt::Case& k) {
		auto& s = k.src;
		Ctx c = gen_ctx(s);
		bool world = false;
		auto b = generated(k, c, world);
		for (size_t i = 0, n = 1 + s.below(3); i < n; ++i) dmg::file(s, b, k.log);
		load_it(k, b, c.g, world);
	}
	void originals(pbt::Case& k) {
		auto& s = k.src;
		auto& [name, data] = s.pick(samples);
		if (data.size() > 60000 && !s.chance(1, 10)) pbt::discard(); // large
		k.log << name << ":";
		Bytes b = data;
		for (size_t i = 0, n = 1 + s.below(3); i < n; ++i) dmg::file(s, b, k.log);
		load_it(k, b, name.find("G1") != std::string::npos ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2, name.find(".SAV") != std::string::npos || name.find("ary.zen") != std::string::npos || name.find("cii.zen") != std::string::npos);
	}
	// Readers have no business outside of their data, whatever is asked of them
	void calls(pbt::Case& k) {
		auto& s = k.src;
		auto fmt = s.pick({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE});
		arch::GenOpt o {fmt};
		uint32_t next = 0;
		auto items = arch::gen_items(s, o, next);
		k.log << arch::fmt_name(fmt) << ":";
		for (size_t i = 0, q = s.below(3); i < q; ++i) dmg::items(s, items, k.log);
		auto b = arch::encode(fmt, s.flip(), items, next, static_cast<unsigned>(s.below(8)));
		for (size_t i = 0, n = s.below(3); i < n; ++i) dmg::file(s, b, k.log);
		Opened e {b};
		auto r = e.open(s.chance(1, 4) ? int(s.below(Opened::KINDS)) : Opened::MEMORY);
		dmg::Bounded mem {b.size()};
		std::unique_ptr<ReadArchive> ar;
		try {
			ar = ReadArchive::from(r.get());
		} catch (Error const&) { k.tag("rejected"); k.nontrivial(); mem.check(); return; } catch (std::exception const& x) { pbt::fail("foreign-error", std::string("not an error of the library: ") + x.what()); }
		for (size_t i = 0, n = s.len(25); i < n; ++i) {
			auto op = s.below(18);
			k.log << " " << op;
			try {
				switch (op) {
				case 0: (void) ar->read_string(); break;
				case 1: (void) ar->read_int(); break;
				case 2: (void) ar->read_float(); break;
				case 3: (void) ar->read_byte(); break;
				case 4: (void) ar->read_word(); break;
				case 5: (void) ar->read_enum(); break;
				case 6: (void) ar->read_bool(); break;
				case 7: (void) ar->read_color(); break;
				case 8: (void) ar->read_vec3(); break;
				case 9: (void) ar->read_vec2(); break;
				case 10: (void) ar->read_bbox(); break;
				case 11: (void) ar->read_mat3x3(); break;
				case 12: { auto x = ar->read_raw(s.below(200)); CHECK("raw", x != nullptr, "no raw data"); (void) slurp(*x); break; }
				case 13: { ArchiveObject q; (void) ar->read_object_begin(q); break; }
				case 14: (void) ar->read_object_end(); break;
				case 15: ar->skip_object(s.flip()); break;
				case 16: (void) ar->skip_object(false); break;
				default: (void) ar->read_object(s.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2); break;
				}
				k.tag("answered");
			} catch (Error const&) { k.tag("refused"); } catch (std::exception const& x) { pbt::fail("foreign-error", std::string("not an error of the library: ") + x.what()); }
			k.nontrivial();
		}
		mem.check();
	}
	// Save games on disk
	void saves(pbt::Case& k) {
		auto& s = k.src;
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.packed = true;
		auto dir = fs::path(pbt::scratch_dir()) / "c26";
		fs::remove_all(dir);
		fs::create_directories(dir);
		size_t largest = 0;
		auto store = [&](char const* name, arch::Items items, uint32_t n, bool save) {
			c.save = save;
			bool hit = s.flip();
			if (hit) { k.log << " " << name << ":"; for (size_t i = 0, q = s.below(3); i < q; ++i) dmg::items(s, items, k.log); }
			auto b = arch::encode(c.fmt, save, items, n, static_cast<unsigned>(s.below(8)));
			if (hit) for (size_t i = 0, q = s.below(3); i < q; ++i) dmg::file(s, b, k.log);
			largest = std::max(largest, b.size());
			if (!s.chance(1, 30)) write_file(dir / name, b);
		};
		auto fmt = [&] { c.fmt = s.pick({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE}); };
		{
			fmt(), c.save = false;
			Gen g {s, c};
			auto meta = std::static_pointer_cast<SaveMetadata>(g.build(T::oCSavegameInfo));
			meta->world = "WORLD";
			Dump d {c};
			d.put("%", meta.get());
			store("SAVEINFO.SAV", d.out, d.next, false);
		}
		{
			fmt(), c.save = true;
			Gen g {s, c};
			auto st = std::make_unique<SaveState>();
			visit_state(g, *st);
			Dump d {c};
			visit_state(d, *st);
			store("SAVEDAT.SAV", d.out, d.next, true);
		}
		if (s.flip()) {
			fmt(), c.save = true;
			auto w = wld::world(s, c);
			uint32_t n = 0;
			auto it = wld::items(*w, c, false, false, false, n);
			store("WORLD.SAV", {it}, n, true);
		}
		if (s.flip()) {
			auto t = msh::tex_bytes(*msh::texture(s));
			if (s.flip()) mutate(s, t, k.log);
			write_file(dir / "THUMB.SAV", t);
		}
		dmg::Bounded mem {largest};
		try {
			SaveGame game {c.g};
			game.load(dir);
			k.tag("loaded");
			auto w = game.load_world();
			if (w) k.tag("world loaded");
		} catch (Error const& x) {
			k.tag("rejected");
			k.log << "\nrejected: " << x.what();
		} catch (std::exception const& x) { pbt::fail("foreign-error", std::string("not an error of the library: ") + x.what()); }
		k.nontrivial();
		mem.check();
	}
}
int main(int argc, char** argv) {
	quiet();
	VirtualObject::enable_packed_save(true);
	std::error_code ec;
	for (auto& p : fs::recursive_directory_iterator("/repo/tests/samples", ec))
		if (p.path().extension() == ".zen" || p.path().filename() == "SAVEINFO.SAV" || p.path().filename() == "WORLD.SAV" || p.path().filename() == "OLDWORLD.SAV") samples.push_back({p.path().string(), read_file(p.path())});
	std::sort(samples.begin(), samples.end());
	pbt::Config cfg {"C26",
	    "Archives of every object class, worlds, cutscene libraries and save games in all encodings with 0-4 changes to their entries (removed, doubled, moved, replaced, extreme counts, other classes, dangling references) and 0-3 to their bytes (flips, fields, blocks, lines, numbers, classes, cuts), the sample archives damaged likewise, and arbitrary calls on the readers; run under AddressSanitizer on exact-size buffers with a limit of 10 s per case and of 64 MB plus 512 times the file for one allocation. Non-trivial: something was loaded (it is then saved again to touch all of it) or the file was rejected with a library error.",
	    {"Nesting deeper than what fits on the stack (about ten thousand levels) is not generated."},
	    {{"entries", 100000, 30, entries}, {"bytes", 100000, 30, bytes}, {"originals", 60000, 30, originals}, {"calls", 100000, 30, calls}, {"saves", 8000, 30, saves}}};
	return pbt::main(argc, argv, cfg);
}
