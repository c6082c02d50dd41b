// C30: what is loaded depends on the bytes of the file alone.
#include "digest.hh"
#include "savegen.hh"
#include <filesystem>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Model.hh>
#include <zenkit/addon/texcvt.hh>
namespace fs = std::filesystem;
extern volatile int g_fill;

namespace {
	__attribute__((noinline)) void scribble(int with) {
		volatile char room[30000];
		memset(const_cast<char*>(room), with, sizeof room);
		asm volatile("" ::"r"(room) : "memory");
	}
	/// Does it three times in different surroundings; the outcome has to be the same.
	template <typename F> void thrice(pbt::Case& k, F&& f) {
		static int const with[] {0x00, 0xA5, 0x01, 0x3F};
		std::string first;
		for (int i = 0; i < 4; ++i) {
			Digest d;
			g_fill = with[i];
			scribble(with[i]);
			try {
				f(d);
				if (i == 0) k.tag("loaded");
			} catch (Error const& e) {
				d.b += std::string("rejected: ") + e.what();
				if (i == 0) k.tag("rejected");
			} catch (std::exception const& e) { d.b += std::string("failed: ") + e.what(); } catch (...) { g_fill = -1; throw; }
			g_fill = -1;
			undate(d.b);
			if (i == 0) { first = d.b; continue; }
			if (d.b == first) continue;
			size_t at = 0;
			while (at < first.size() && at < d.b.size() && first[at] == d.b[at]) ++at;
			auto near = [&](std::string const& x) { return pbt::quote(x.substr(at < 16 ? 0 : at - 16, 16 + std::min<size_t>(at, 16))); };
			pbt::fail("same", "the outcome depends on what memory held before or on the kind of stream: byte " + std::to_string(at) + " of the " + std::to_string(first.size()) + "/" + std::to_string(d.b.size()) + " seen: " + near(first) + " / " + near(d.b));
		}
		k.nontrivial();
	}
	/// The bytes as another kind of stream each time. Only intact files: back ends differ in where seeking beyond the end leads.
	struct Source {
		Opened o;
		int kind, round {0};
		bool intact;
		Source(pbt::Case& k, Bytes const& f, bool i) : o(f), kind(int(k.src.below(Opened::KINDS))), intact(i) {}
		std::unique_ptr<Read> open() { return o.open(round++ % 4 < 2 || !intact ? Opened::MEMORY : (kind + round) % Opened::KINDS); }
	};
	template <typename T> void load_as(pbt::Case& k, Bytes const& file, bool intact) {
		bool wide = k.src.chance(1, 8);
		Source e {k, file, intact};
		thrice(k, [&](Digest& d) {
			std::unique_ptr<T> x {new T};
			auto r = e.open();
			if constexpr (std::is_same_v<T, Mesh>) x->load(r.get(), wide);
			else x->load(r.get());
			see(d, *x);
			d(r->tell());
		});
	}
	void load_it(pbt::Case& k, int kind, Bytes const& f, bool intact) {
		k.log << "\n" << f.size() << " bytes as " << ag::NAME[kind];
		k.tag(ag::NAME[kind]);
		switch (kind) {
		case ag::TEX: load_as<Texture>(k, f, intact); break;
		case ag::FNT: load_as<Font>(k, f, intact); break;
		case ag::MSH: load_as<Mesh>(k, f, intact); break;
		case ag::MDH: load_as<ModelHierarchy>(k, f, intact); break;
		case ag::MRM: load_as<MultiResolutionMesh>(k, f, intact); break;
		case ag::MDM: load_as<ModelMesh>(k, f, intact); break;
		case ag::MDL: load_as<Model>(k, f, intact); break;
		case ag::MAN: load_as<ModelAnimation>(k, f, intact); break;
		case ag::MMB: load_as<MorphMesh>(k, f, intact); break;
		default: load_as<ModelScript>(k, f, intact);
		}
	}
	void assets(pbt::Case& k) {
		auto& s = k.src;
		int kind = int(s.below(ag::KINDS));
		auto b = ag::make(k, kind);
		auto was = b;
		if (s.chance(3, 4)) {
			if (kind == ag::MDS) for (size_t i = 0, n = s.below(4); i < n; ++i) ag::words(s, b, k.log);
			if (kind != ag::MDS || s.flip()) ag::damage(k, kind, b);
		}
		load_it(k, kind, b, b == was);
	}
	void scripts(pbt::Case& k) {
		auto& s = k.src;
		dat::Gen g {s, {}, {}, {}, {}, {}, {}, {}, 0};
		dat::table(s, g, 10);
		dat::Code c;
		for (size_t n = s.len(30); n > 0; --n) c.u8(s.u8());
		g.im.code = c.b;
		g.im.make_sort();
		auto raw = g.im.encode();
		Bytes b;
		for (auto x : raw) b.push_back(std::byte(x));
		k.log << g.im.syms.size() << " symbols";
		auto was = b;
		for (size_t i = 0, n = s.below(3); i < n && !b.empty(); ++i) {
			switch (s.below(4)) {
			case 0: mutate(s, b, k.log); break;
			case 1: ag::counts(s, b, k.log); break;
			case 2: dmg::text(s, b, k.log); break;
			default: { size_t c2 = s.below(b.size()); k.log << " cut@" << c2; b.resize(c2); }
			}
		}
		load_as<DaedalusScript>(k, b, b == was);
	}
	void archived(pbt::Case& k, Bytes const& file, GameVersion g, bool world, bool intact) {
		auto how = world ? k.src.below(3) : 0;
		k.log << "\n" << file.size() << " bytes as " << (g == GameVersion::GOTHIC_1 ? "g1" : "g2") << " way " << how;
		Source e {k, file, intact};
		thrice(k, [&](Digest& d) {
			auto r = e.open();
			std::vector<std::shared_ptr<Object>> got;
			auto v = g;
			try {
				if (how >= 1) {
					std::shared_ptr<World> w {new World};
					if (how == 1) w->load(r.get(), g);
					else v = w->load(r.get());
					got.push_back(w);
				} else {
					auto ar = ReadArchive::from(r.get());
					for (int i = 0; i < 2 && !r->eof(); ++i) got.push_back(ar->read_object(g));
				}
				d(r->tell());
			} catch (Error const& x) { d.b += std::string("rejected: ") + x.what(), k.tag("rejected part"); }
			d(v);
			for (auto& o : got) see(d, o, v);
		});
	}
	void objects(pbt::Case& k) {
		auto& s = k.src;
		Ctx c = gen_ctx(s);
		bool world = false;
		auto b = objgen::generated(k, c, world);
		bool intact = !objgen::damaged && !s.chance(1, 3);
		if (!intact) for (size_t i = 0, n = 1 + s.below(3); i < n; ++i) dmg::file(s, b, k.log);
		if (!intact && s.chance(1, 6)) c.g = c.g == GameVersion::GOTHIC_1 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		archived(k, b, c.g, world, intact);
	}
	/* ---- save games ---- */
	void saves(pbt::Case& k) {
		auto& s = k.src;
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.packed = true;
		auto dir = fs::path(pbt::scratch_dir()) / "c30";
		fs::remove_all(dir);
		fs::create_directories(dir);
		auto store = [&](char const* name, arch::Items items, uint32_t n, bool save) {
			bool hit = s.flip();
			if (hit) { k.log << " " << name << ":"; for (size_t i = 0, q = s.below(3); i < q; ++i) dmg::items(s, items, k.log); }
			auto b = arch::encode(c.fmt, save, items, n, static_cast<unsigned>(s.below(8)));
			if (hit && s.flip()) dmg::file(s, b, k.log);
			if (!s.chance(1, 20)) write_file(dir / name, b);
		};
		auto fmt = [&] { c.fmt = s.pick({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE}); };
		{
			fmt(), c.save = false;
			Gen g {s, c};
			auto meta = std::static_pointer_cast<SaveMetadata>(g.build(T::oCSavegameInfo));
			meta->world = "WORLD";
			Dump d {c};
			d.put("%", meta.get());
			store("SAVEINFO.SAV", d.out, d.next, false);
		}
		{
			fmt(), c.save = true;
			Gen g {s, c};
			auto st = std::make_unique<SaveState>();
			visit_state(g, *st);
			Dump d {c};
			visit_state(d, *st);
			store("SAVEDAT.SAV", d.out, d.next, true);
		}
		if (s.flip()) {
			auto t = msh::tex_bytes(*msh::texture(s));
			if (s.chance(1, 4)) mutate(s, t, k.log);
			write_file(dir / "THUMB.SAV", t);
		}
		bool fresh = s.chance(1, 4); // never loaded at all
		thrice(k, [&](Digest& d) {
			std::unique_ptr<SaveGame> game {new SaveGame {c.g}};
			if (!fresh) game->load(dir);
			see(d, std::shared_ptr<Object> {&game->metadata, [](Object*) {}}, c.g);
			Dump sd {c};
			visit_state(sd, game->state);
			auto b = arch::encode(ArchiveFormat::BINARY, true, sd.out, sd.next, 0);
			d.bytes(b.data(), b.size());
			d(game->thumbnail.has_value());
			if (game->thumbnail) see(d, *game->thumbnail);
		});
		fs::remove_all(dir);
	}
	/* ---- files from the game ---- */
	struct Sample { std::string name; Bytes data; };
	std::vector<Sample> samples;
	void originals(pbt::Case& k) {
		auto& s = k.src;
		auto& [name, data] = s.pick(samples);
		if (data.size() > 60000 && !s.chance(1, 10)) pbt::discard(); // large
		auto ext = name.substr(name.rfind('.') + 1);
		for (auto& c : ext) c = char(toupper(c));
		k.log << name << ":";
		Bytes b = data;
		if (ext == "ZEN" || ext == "SAV") {
			for (size_t i = 0, n = s.below(3); i < n; ++i) dmg::file(s, b, k.log);
			archived(k, b, name.find("G1") != std::string::npos ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2, true, b == data && name.find("WORLD") != std::string::npos); // others are not what they are read as
			return;
		}
		static char const* const EXT[] {"TEX", "FNT", "MSH", "MDH", "MRM", "MDM", "MDL", "MAN", "MMB", "MDS", "MSB"};
		int kind = 0;
		while (kind < ag::KINDS - 1 && ext != EXT[kind]) ++kind;
		if (s.chance(3, 4)) ag::damage(k, kind, b);
		load_it(k, kind, b, b == data);
	}
}
int main(int argc, char** argv) {
	quiet();
	VirtualObject::enable_packed_save(true);
	static std::set<std::string> const exts {".tex", ".fnt", ".msh", ".mdh", ".mrm", ".mdm", ".mdl", ".man", ".mmb", ".mds", ".msb", ".zen", ".sav"};
	std::error_code ec;
	for (auto& p : fs::recursive_directory_iterator("/repo/tests/samples", ec)) {
		auto x = p.path().extension().string();
		for (auto& c : x) c = char(tolower(c));
		if (exts.count(x)) samples.push_back({p.path().string(), read_file(p.path())});
	}
	std::sort(samples.begin(), samples.end(), [](auto& a, auto& b) { return a.name < b.name; });
	pbt::Config cfg {"C30", "Every file that was loaded, or refused, four times: with heap and stack holding other bytes beforehand, and after other loads.",
	    {"What was loaded is compared by its public fields and by what saving it gives."},
	    {{"assets", 80000, 30, assets}, {"scripts", 30000, 30, scripts}, {"objects", 60000, 30, objects}, {"saves", 8000, 30, saves}, {"originals", 12000, 30, originals}}};
	return pbt::main(argc, argv, cfg);
}
