// C13: save games round-trip: metadata, script state, quests, thumbnail, worlds.
#include "archparse.hh"
#include "worldgen.hh"
#include "savegen.hh"
#include "pbt.hh"
#include <filesystem>
using namespace fld;
namespace fs = std::filesystem;

namespace {
	arch::Items dump(SaveState& o, Ctx const& c) { Dump d {c}; visit_state(d, o); return d.out; }
	arch::Items dump(SaveMetadata& o, Ctx const& c) { Dump d {c}; d.put("%", &o); return d.out; }

	struct Slot { // what a save directory holds
		SaveMetadata meta;
		SaveState state;
		std::optional<Bytes> thumb;
		std::string header;
		std::map<std::string, std::shared_ptr<World>> worlds;
		std::map<std::string, std::string> others;
	};
	void check_game(SaveGame& g, Slot& m, Ctx c, std::map<std::string, ArchiveFormat> const& fmts, ArchiveFormat info, ArchiveFormat dat, std::string const& w) {
		c.fmt = info, c.save = false;
		same(dump(m.meta, c), dump(g.metadata, c), info == ArchiveFormat::ASCII, w + " SAVEINFO.SAV", "metadata");
		c.fmt = dat, c.save = true;
		same(dump(m.state, c), dump(g.state, c), dat == ArchiveFormat::ASCII, w + " SAVEDAT.SAV", "state");
		CHECK("thumbnail", g.thumbnail.has_value() == m.thumb.has_value(), w << ": the save has " << (m.thumb ? "a" : "no") << " thumbnail, loaded " << (g.thumbnail ? "one" : "none"));
		if (m.thumb) CHECK("thumbnail-pixels", msh::tex_bytes(*g.thumbnail) == *m.thumb, w << ": the thumbnail differs");
		for (auto& [n, x] : m.worlds) {
			c.fmt = fmts.count(n) ? fmts.at(n) : ArchiveFormat::BINARY;
			for (auto& q : {n, n + ".ZEN"}) {
				auto got = g.load_world(q);
				CHECK("world", got != nullptr, w << ": there is no world " << q);
				wld::same(*x, *got, c, w + " world " + q);
			}
		}
		CHECK("world-absent", g.load_world("ABSENT") == nullptr && g.load_world("ABSENT.ZEN") == nullptr, w << ": found a world which was never stored");
		auto got = g.load_world();
		CHECK("world-current", bool(got) == bool(m.worlds.count(m.meta.world)), w << ": load_world() does not give the world of the metadata");
		c.fmt = fmts.count(m.meta.world) ? fmts.at(m.meta.world) : ArchiveFormat::BINARY;
		if (got) wld::same(*m.worlds[m.meta.world], *got, c, w + " load_world()");
	}
	// What changes between calls of save(); strings have to fit all encodings
	void edit(pbt::Src& s, SaveGame& g, Ctx c) {
		c.fmt = ArchiveFormat::ASCII;
		Gen gen {s, c};
		c.save = false;
		auto meta = std::static_pointer_cast<SaveMetadata>(gen.build(T::oCSavegameInfo));
		g.metadata = *meta;
		g.metadata.world = s.pick({"WORLD", "OldWorld", "dungeon_1", "NOWHERE"});
		SaveState st {};
		visit_state(gen, st);
		g.state = st;
		if (s.flip()) g.thumbnail.reset();
		else g.thumbnail.emplace(*msh::texture(s));
	}
	Slot snapshot(SaveGame& g, Slot const* base) {
		Slot m;
		if (base) m = *base;
		m.meta = g.metadata, m.state = g.state;
		m.thumb.reset();
		if (g.thumbnail) m.thumb = msh::tex_bytes(*g.thumbnail);
		return m;
	}
	// Several games, several directories: saving, loading, saving again elsewhere.
	void history(pbt::Case& k) {
		auto& s = k.src;
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = true, c.packed = true;
		VirtualObject::enable_packed_save(true);
		auto base = fs::path(pbt::scratch_dir()) / "c13" / "saves";
		fs::remove_all(base);
		fs::create_directories(base);
		std::map<std::string, Slot> disk;
		SaveGame game {c.g};
		std::string at; // the directory the game was loaded from or saved to
		k.log << (c.g2() ? "g2" : "g1");
		size_t steps = 1 + s.len(5), saves = 0;
		for (size_t i = 0; i < steps; ++i) {
			auto slot = s.pick({std::string("a"), std::string("b"), std::string("c")});
			// the same directory can be spelled differently
			auto path = base / slot;
			if (s.chance(1, 4)) path = base / "." / slot, k.log << " [./]";
			switch (disk.empty() ? 0 : s.weighted({5, 4, 1, 1})) {
			case 0: {
				if (i == 0 || s.chance(3, 4)) edit(s, game, c);
				c.fmt = ArchiveFormat::BINARY;
				auto w = wld::world(s, c);
				std::string name = s.pick({"WORLD", "OldWorld", "dungeon_1"});
				k.log << " save(" << slot << "," << name << (game.thumbnail ? ",thumb" : "") << ")";
				game.save(path, *w, name);
				Slot* from = at.empty() || !disk.count(at) ? nullptr : &disk[at];
				auto m = snapshot(game, from);
				m.worlds[name] = w, m.header = name + ".ZEN\n";
				disk[slot] = m;
				at = slot;
				++saves;
				break;
			}
			case 1: {
				if (!disk.count(slot)) break;
				k.log << " load(" << slot << ")";
				if (s.flip()) game = SaveGame {c.g};
				game.load(path);
				check_game(game, disk[slot], c, {}, ArchiveFormat::ASCII, ArchiveFormat::ASCII, "slot " + slot);
				// what ASCII cannot hold exactly is lost now
				auto keep = disk[slot];
				disk[slot] = snapshot(game, &keep);
				at = slot;
				break;
			}
			case 2: {
				if (!disk.count(slot)) break;
				std::string text = s.ident(10);
				write_file((base / slot / "LOG.SAV").string(), Bytes(reinterpret_cast<std::byte const*>(text.data()), reinterpret_cast<std::byte const*>(text.data()) + text.size()));
				disk[slot].others["LOG.SAV"] = text;
				k.log << " log(" << slot << ")";
				break;
			}
			default: {
				k.log << " new";
				game = SaveGame {c.g};
				at.clear();
			}
			}
		}
		if (saves > 1) k.nontrivial();
		for (auto& [slot, m] : disk) {
			SaveGame g {c.g};
			g.load(base / slot);
			auto w = "slot " + slot + " at the end";
			check_game(g, m, c, {}, ArchiveFormat::ASCII, ArchiveFormat::ASCII, w);
			std::set<std::string> want {"SAVEINFO.SAV", "SAVEDAT.SAV", "SAVEHDR.SAV"}, got;
			if (m.thumb) want.insert("THUMB.SAV");
			for (auto& [n, x] : m.worlds) want.insert(n + ".SAV");
			for (auto& [n, x] : m.others) want.insert(n);
			for (auto& e : fs::directory_iterator(base / slot)) got.insert(e.path().filename().string());
			for (auto& n : want) CHECK("files-missing", got.count(n), w << ": " << n << " is missing");
			for (auto& n : got) CHECK("files-surplus", want.count(n), w << ": " << n << " is left over");
			auto hdr = read_file((base / slot / "SAVEHDR.SAV").string());
			CHECK("header", std::string(reinterpret_cast<char const*>(hdr.data()), hdr.size()) == m.header, w << ": SAVEHDR.SAV does not name " << m.header);
			for (auto& [n, x] : m.others) {
				auto f = read_file((base / slot / n).string());
				CHECK("others", std::string(reinterpret_cast<char const*>(f.data()), f.size()) == x, w << ": " << n << " changed");
			}
			// archives have the documented entries
			for (bool dat : {false, true}) {
				auto cc = c;
				cc.fmt = ArchiveFormat::ASCII, cc.save = dat;
				auto f = arch::parse_file(read_file((base / slot / (dat ? "SAVEDAT.SAV" : "SAVEINFO.SAV")).string()));
				same(arch::normal(dat ? dump(m.state, cc) : dump(m.meta, cc), cc.fmt), f.items, true, w + (dat ? " SAVEDAT.SAV" : " SAVEINFO.SAV"), "layout");
			}
		}
		fs::remove_all(base);
	}
	std::string spell(pbt::Src& s, std::string n) { // letter case of the fixed file names does not matter
		switch (s.below(3)) {
		case 0: return n;
		case 1: for (auto& c : n) c = static_cast<char>(tolower(c)); return n;
		default: for (auto& c : n) if (s.flip()) c = static_cast<char>(tolower(c)); return n;
		}
	}
	// A save game made without the library, in any encoding.
	void decode(pbt::Case& k) {
		auto& s = k.src;
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = true;
		auto fmt = [&] { return s.pick({ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII}); };
		auto dir = fs::path(pbt::scratch_dir()) / "c13" / "made";
		fs::remove_all(dir);
		fs::create_directories(dir);
		Slot m;
		auto put = [&](std::string const& n, Bytes const& b) { write_file((dir / n).string(), b); };
		auto ci = c, cd = c;
		ci.fmt = fmt(), ci.save = s.flip();
		cd.fmt = fmt();
		{
			Gen g {s, ci};
			m.meta = *std::static_pointer_cast<SaveMetadata>(g.build(T::oCSavegameInfo));
			m.meta.world = s.flip() ? "W1" : "X" + s.ident(10);
			auto d = dump(m.meta, ci);
			put(spell(s, "SAVEINFO.SAV"), arch::encode(ci.fmt, ci.save, d, 1));
		}
		{
			Gen g {s, cd};
			m.state = {};
			visit_state(g, m.state);
			Dump d {cd};
			visit_state(d, m.state);
			// missions can have lists of objects, which are not kept
			for (size_t i = 0; i < d.out.size(); ++i)
				if (d.out[i].name == "NumInList" && s.chance(1, 3)) {
					Dump l {cd};
					auto n = s.below(3);
					for (size_t j = 0; j < n; ++j) l.i32("VobIDL", s.i32()), l.i32("StatusL", s.i32()), l.flt("startTimeL", s.finite());
					d.out[i].u = static_cast<uint32_t>(n);
					d.out.insert(d.out.begin() + static_cast<long>(i) + 1, l.out.begin(), l.out.end());
				}
			put(spell(s, "SAVEDAT.SAV"), arch::encode(cd.fmt, true, d.out, d.next));
		}
		if (s.flip()) {
			m.thumb = msh::tex_bytes(*msh::texture(s));
			put(spell(s, "THUMB.SAV"), *m.thumb);
		}
		std::map<std::string, ArchiveFormat> fmts;
		for (size_t i = 0, n = s.below(3); i < n; ++i) {
			auto cw = c;
			cw.fmt = fmt();
			auto name = num("W", i + 1);
			auto w = wld::world(s, cw);
			uint32_t cnt = 0;
			auto it = wld::items(*w, cw, false, false, false, cnt);
			put(name + ".SAV", arch::encode(cw.fmt, true, {it}, cnt));
			m.worlds[name] = w, fmts[name] = cw.fmt;
		}
		k.log << (c.g2() ? "g2 " : "g1 ") << "info " << arch::fmt_name(ci.fmt) << " data " << arch::fmt_name(cd.fmt) << " worlds " << m.worlds.size() << (m.thumb ? " thumb" : "") << " symbols "
		      << m.state.symbols.size() << " topics " << m.state.log.size() << "\n";
		if (m.state.symbols.size() + m.state.log.size() + m.state.infos.size() + m.state.missions.size() > 2) k.nontrivial();
		SaveGame g {c.g};
		if (s.flip()) edit(s, g, c), g.load(dir); // loading replaces what was there
		else g.load(dir);
		check_game(g, m, c, fmts, ci.fmt, cd.fmt, "made save");
		fs::remove_all(dir);
	}
	// Saves of the original games: what the library sees is what the files hold.
	void original(pbt::Case& k) {
		auto& s = k.src;
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		fs::path dir = std::string("/repo/tests/samples/") + (c.g2() ? "G2" : "G1") + (s.flip() ? "/Save" : "/SaveFast");
		k.log << dir.string() << "\n";
		k.nontrivial();
		SaveGame g {c.g};
		g.load(dir);
		for (bool dat : {false, true}) {
			auto file = read_file((dir / (dat ? "SAVEDAT.SAV" : "SAVEINFO.SAV")).string());
			auto f = arch::parse_file(file);
			c.save = dat;
			c.fmt = std::string_view(reinterpret_cast<char const*>(file.data()), 60).find("BIN_SAFE") != std::string_view::npos ? ArchiveFormat::BINSAFE : ArchiveFormat::ASCII;
			same(f.items, arch::normal(dat ? dump(g.state, c) : dump(g.metadata, c), c.fmt), c.fmt == ArchiveFormat::ASCII, dir.string() + (dat ? " SAVEDAT.SAV" : " SAVEINFO.SAV"), "original");
		}
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C13", "history: more than one save() was made; decode: more than two symbols, topics, infos and missions; original: always",
	    {"symbols of Gothic 1 saves have one value", "world names without dots", "as for C12 for the worlds"},
	    {{"original", 16, 1, original}, {"history", 6000, 30, history}, {"decode", 6000, 30, decode}}};
	return pbt::main(argc, argv, cfg);
}
