// C12: worlds round-trip with mesh, BSP tree, object tree and way net.
#include "archparse.hh"
#include "worldgen.hh"
#include "pbt.hh"
using namespace fld;

static size_t vobs(std::vector<std::shared_ptr<VirtualObject>> const& v) { size_t n = v.size(); for (auto& o : v) n += vobs(o->children); return n; }
static void describe_world(pbt::Case& k, World& w, Ctx const& c) {
	k.log << describe(c) << " vobs " << vobs(w.world_vobs) << " points " << w.way_net->points.size() << " edges " << w.way_net->edges.size() << " polygons "
	      << w.world_mesh.geometry.size() << " bsp nodes " << w.world_bsp_tree.nodes.size() << " leaves " << w.world_bsp_tree.leaf_node_indices.size() << " npcs " << w.npcs.size()
	      << " spawns " << w.npc_spawns.size() << (w.player ? " player" : "") << (w.sky_controller ? " sky" : "") << "\n";
	for (auto& [a, b] : w.way_net->edges) k.log << "edge " << pbt::quote(a->name) << " " << pbt::quote(b->name) << "\n";
	k.tag(describe(c));
	if (vobs(w.world_vobs) + w.way_net->edges.size() + w.world_bsp_tree.nodes.size() + w.npcs.size() > 2) k.nontrivial();
}
static void load_and_compare(pbt::Case& k, World& w, Ctx const& c, Bytes const& file) {
	auto& s = k.src;
	Exact e {file};
	{
		World got;
		auto r = e.open();
		got.load(r.get(), c.g);
		wld::same(w, got, c, describe(c));
	}
	if (!c.save) {
		World got;
		auto r = e.open();
		auto g = got.load(r.get());
		CHECK("version", g == c.g, describe(c) << ": detected the wrong game version");
		wld::same(w, got, c, describe(c) + " detected");
	}
	if (s.flip()) {
		auto r = e.open();
		auto ar = ReadArchive::from(r.get());
		CHECK("save-flag", ar->is_save_game() == c.save, describe(c) << ": save-game flag differs");
		auto got = ar->read_object(c.g);
		CHECK("class", got && got->get_object_type() == T::oCWorld, describe(c) << ": not loaded as a world");
		wld::same(w, static_cast<World&>(*got), c, describe(c) + " as object");
	}
}
static void roundtrip(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	VirtualObject::enable_packed_save(c.packed);
	auto w = wld::world(s, c);
	if (!c.save && s.chance(1, 200)) { // counts above 16 bits
		auto& v = w->world_bsp_tree.polygon_indices;
		for (uint32_t i = 0, n = 65536 + static_cast<uint32_t>(s.below(9)); i < n; ++i) v.push_back(i * 7);
		k.tag("large");
	}
	describe_world(k, *w, c);
	Bytes file;
	{
		auto o = Write::to(&file);
		auto ar = c.save ? WriteArchive::to_save(o.get(), c.fmt) : WriteArchive::to(o.get(), c.fmt);
		ar->write_object(w, c.g);
		ar->write_header();
	}
	load_and_compare(k, *w, c, file);
	if (c.fmt == ArchiveFormat::BINARY) return;
	// the entries of the file, read without the library
	arch::File f;
	try {
		f = arch::parse_file(file, true);
	} catch (arch::Bad const& e) {
		pbt::fail("well-formed", describe(c) + ": the saved world is not a well-formed archive: " + e.what());
	}
	uint32_t n = 0;
	arch::Items want = arch::normal({wld::items(*w, c, false, false, false, n)}, c.fmt);
	CHECK("objects", f.objects == n, describe(c) << ": the archive counts " << f.objects << " objects, it has " << n);
	// the mesh and the BSP tree end where their size says
	if (f.items.size() == 1)
		for (auto& i : f.items[0].kids)
			for (auto& b : i.kids) {
				if (b.k != arch::BLOB) continue;
				size_t at = 8;
				unsigned id = 0;
				while (at + 6 <= b.raw.size() && id != 0xC0FF) {
					auto u = [&](size_t j) { return static_cast<uint32_t>(static_cast<uint8_t>(b.raw[at + j])); };
					id = u(0) | u(1) << 8;
					at += 6 + size_t(u(2) | u(3) << 8 | u(4) << 16 | u(5) << 24);
				}
				CHECK("mesh-size", id == 0xC0FF && at == b.raw.size(), describe(c) << ": mesh and BSP tree have " << b.raw.size() << " bytes by their size, their chunks end at " << at);
			}
	auto section = [&](arch::Items& v) {
		if (v.size() != 1) return;
		for (auto& i : v[0].kids) {
			if (i.k == arch::OBJ && (i.s.empty() || i.s == "%")) i.s = "%", i.index = 0; // sections are not objects
			for (auto& b : i.kids) if (b.k == arch::BLOB) b.raw.resize(4); // the mesh was compared above; its version
		}
	};
	section(want), section(f.items);
	arch::forgive(want), arch::forgive(f.items);
	fld::same(want, f.items, c.fmt == ArchiveFormat::ASCII, describe(c), "entry");
}
static void decode(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	bool wide = !c.save && !c.g2() && s.chance(1, 4);
	auto w = wld::world(s, c, wide);
	describe_world(k, *w, c);
	unsigned style = static_cast<unsigned>(s.below(8)) | (wide ? 16 : 0);
	bool ways = s.chance(1, 3), last = s.chance(1, 3);
	k.log << "style " << style << (ways ? " way net first" : "") << (last ? " mesh last" : "") << (wide ? " wide" : "") << "\n";
	uint32_t n = 0;
	bool strange = s.chance(1, 3);
	if (strange) k.log << "with objects of unknown classes\n", k.tag("unknown classes");
	auto it = wld::items(*w, c, ways, last, wide, n, {}, strange ? &s : nullptr);
	load_and_compare(k, *w, c, arch::encode(c.fmt, c.save, {it}, n, style));
}
// The save-game world of the original game: what the library sees is what the file holds, and it survives saving.
static Bytes originals[2];
static void original(pbt::Case& k) {
	Ctx c;
	bool g2 = k.src.flip();
	auto& original_file = originals[g2];
	std::string name = g2 ? "OLDWORLD.SAV" : "WORLD.SAV";
	c.g = g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, c.save = true, c.fmt = k.src.pick({ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII});
	k.nontrivial();
	k.log << name << " saved as " << arch::fmt_name(c.fmt) << "\n";
	VirtualObject::enable_packed_save(true);
	auto w = std::make_shared<World>();
	{
		Exact e {original_file};
		auto r = e.open();
		w->load(r.get(), c.g);
	}
	// The file's own bytes, except for what is not interpreted.
	auto body = [](Bytes const& f) { return f.data() + std::string_view(reinterpret_cast<char const*>(f.data()), 300).find("oCWorld") - 12; };
	auto encode = [&](uint32_t unknown) {
		auto cb = c;
		cb.fmt = ArchiveFormat::BINARY, cb.unknown = unknown, cb.original = true;
		uint32_t n = 0;
		auto i = wld::items(*w, cb, false, false, false, n);
		return arch::encode(ArchiveFormat::BINARY, true, {i}, n);
	};
	auto zero = encode(0), ones = encode(~0u);
	auto *a = body(zero), *b = body(ones), *o = body(original_file);
	size_t size = static_cast<size_t>(original_file.data() + original_file.size() - o);
	CHECK("original-size", zero.data() + zero.size() - a == static_cast<long>(size), "what was loaded from " << name << " stands for " << zero.size() << " bytes instead of " << original_file.size());
	for (size_t i = 0; i < size; ++i) {
		bool flag = a[i] == std::byte {1} && o[i] != std::byte {0}; // any non-zero byte is true
		CHECK("original-bytes", a[i] == o[i] || a[i] != b[i] || flag, "byte " << i << " of " << name << " is " << int(o[i]) << ", what was loaded from it stands for " << int(a[i]));
	}
	Bytes file;
	{
		auto o = Write::to(&file);
		auto ar = WriteArchive::to_save(o.get(), c.fmt);
		ar->write_object(w, c.g);
		ar->write_header();
	}
	Exact e {file};
	World got;
	auto r = e.open();
	got.load(r.get(), c.g);
	wld::same(*w, got, c, name + " as " + std::string(arch::fmt_name(c.fmt)));
}
int main(int argc, char** argv) {
	quiet();
	originals[0] = read_file("/repo/tests/samples/G1/SaveFast/WORLD.SAV");
	originals[1] = read_file("/repo/tests/samples/G2/SaveFast/OLDWORLD.SAV");
	pbt::Config cfg {"C12", "the world has more than two objects, way-net edges, BSP nodes and NPCs together",
	    {"as for C10 and C15 for the objects and the mesh in it", "way points no edge leads to are free points; the order of the others is that of their first edge",
	     "one light point per leaf, or none", "BSP nodes are listed in pre-order, as loading lists them", "contents of the original save-game world which the library does not interpret (screen effects, spells, short keys, unused flag bits) are not compared"},
	    {{"original", 12, 1, original}, {"roundtrip", 30000, 40, roundtrip}, {"decode", 30000, 40, decode}}};
	return pbt::main(argc, argv, cfg);
}
