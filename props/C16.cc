// C16: model assets round-trip.
#include "modelgen.hh"
using namespace zenkit;

static GameVersion game(pbt::Src& s) { return s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }
static char const* name(GameVersion g) { return g == GameVersion::GOTHIC_2 ? "G2" : "G1"; }

template <typename T, typename S>
static Bytes saved(T& x, S&& save) {
	Bytes b;
	auto w = Write::to(&b);
	save(x, w.get());
	return b;
}
/// Loads `file`, which is followed by something that is not part of the asset.
template <typename T>
static T loaded(Bytes file, std::string const& w, char const* key) {
	auto end = file.size();
	for (int i = 0; i < 8; ++i) file.push_back(std::byte {0x55});
	Exact e {file};
	auto r = e.open();
	T x {};
	x.load(r.get());
	CHECK(std::string(key) + "-extent", r->tell() == end, w << ": loading stopped at " << r->tell() << " of " << end);
	return x;
}
template <typename T, typename Save, typename Same>
static void cycle(T& a, std::string const& w, std::string const& key, Save save, Same same) {
	auto f = saved(a, save);
	auto b = loaded<T>(f, w, key.c_str());
	same(a, b, w, key);
	auto f2 = saved(b, save);
	auto c = loaded<T>(f2, w + " saved twice", (key + "-again").c_str());
	same(a, c, w + " saved twice", key + "-again");
}
template <typename T, typename Enc, typename Same>
static void decoded(T& a, std::string const& w, std::string const& key, Enc enc, Same same) {
	Out o;
	enc(o, a);
	auto b = loaded<T>(o.bytes(), w, key.c_str());
	same(a, b, w, key);
}
static std::string about(MultiResolutionMesh const& m) {
	return std::to_string(m.positions.size()) + " positions, " + std::to_string(m.sub_meshes.size()) + " sub-meshes";
}

static void hierarchy(pbt::Case& k) {
	auto h = mdl::hierarchy(k.src);
	std::string w = "hierarchy with " + std::to_string(h.nodes.size()) + " nodes";
	k.log << w << "\n";
	if (h.nodes.size() > 1) k.nontrivial();
	auto same = [](ModelHierarchy& a, ModelHierarchy& b, std::string const& w, std::string const& key) { mdl::same(a, b, w, key); };
	cycle(h, w, "hierarchy", [](ModelHierarchy& x, Write* wr) { x.save(wr); }, same);
	Out o;
	mdl::encode(o, h);
	msh::layout(saved(h, [](ModelHierarchy& x, Write* wr) { x.save(wr); }), o.bytes(), {}, w, "hierarchy");
	decoded(h, w + " (encoded)", "hierarchy-decode", [](Out& o, ModelHierarchy& x) { mdl::encode(o, x); }, same);
}
static void mrm(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	auto m = mdl::mrm(s, g);
	if (s.chance(1, 300)) { // counts above 16 bits
		size_t n = 65536 + s.below(9);
		auto many = [&](auto& v, auto make) { for (size_t i = v.size(); i < n; ++i) v.push_back(make(static_cast<uint16_t>(i * 7))); };
		unsigned which = s.below(m.sub_meshes.empty() ? 2 : 6);
		if (which == 0) many(m.positions, [](uint16_t i) { return zenkit::Vec3 {float(i), 1, 2}; });
		if (which == 1) many(m.normals, [](uint16_t i) { return zenkit::Vec3 {float(i), 1, 2}; });
		if (which == 2) many(m.sub_meshes[0].triangles, [](uint16_t i) { return MeshTriangle {{i, 1, 2}}; });
		if (which == 3) many(m.sub_meshes[0].colors, [](uint16_t i) { return float(i); });
		if (which == 4) many(m.sub_meshes[0].wedge_map, [](uint16_t i) { return i; });
		if (which == 5) many(m.sub_meshes[0].edge_scores, [](uint16_t i) { return float(i); });
		k.tag("large");
	}
	auto w = std::string(name(g)) + " multi-resolution mesh: " + about(m);
	k.log << w << "\n";
	if (!m.positions.empty() && !m.sub_meshes.empty()) k.nontrivial();
	auto same = [g](MultiResolutionMesh& a, MultiResolutionMesh& b, std::string const& w, std::string const& key) { mdl::same(a, b, g, w, key); };
	cycle(m, w, "mrm", [g](MultiResolutionMesh& x, Write* wr) { x.save(wr, g); }, same);
	// what is saved is laid out as the format asks for: reading it ends where its chunk does
	auto f = saved(m, [g](MultiResolutionMesh& x, Write* wr) { x.save(wr, g); });
	uint32_t len = 0;
	for (int i = 0; i < 4; ++i) len |= uint32_t(f.at(2 + i)) << (8 * i);
	CHECK("mrm-chunk", f.size() >= 6 + size_t(len) && size_t(len) + 12 == f.size(), w << ": the mesh chunk has " << len << " of " << f.size() << " bytes");
	mdl::blocks(f, 6, len, m, g, w, "mrm");
	Exact body {Bytes(f.begin() + 6, f.begin() + 6 + len)};
	MultiResolutionMesh b;
	auto r = body.open();
	b.load_from_section(r.get());
	CHECK("mrm-section", r->tell() == len, w << ": the section ends at " << r->tell() << ", its chunk at " << len);
	Out o;
	mdl::encode(o, m, g);
	msh::layout(f, o.bytes(), {{0xB100, 6}}, w, "mrm");
	decoded(m, w + " (encoded)", "mrm-decode", [&](Out& o, MultiResolutionMesh& x) { mdl::encode(o, x, g, &s); }, same);
}
static void softskin(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	auto m = mdl::soft_skin(s, g);
	auto w = std::string(name(g)) + " soft skin: " + about(m.mesh) + ", " + std::to_string(m.nodes.size()) + " nodes";
	k.log << w << "\n";
	if (!m.weights.empty() && !m.nodes.empty()) k.nontrivial();
	auto same = [g](SoftSkinMesh& a, SoftSkinMesh& b, std::string const& w, std::string const& key) { mdl::same(a, b, g, w, key); };
	cycle(m, w, "skin", [g](SoftSkinMesh& x, Write* wr) { x.save(wr, g); }, same);
	Out o;
	mdl::encode(o, m, g);
	msh::layout(saved(m, [g](SoftSkinMesh& x, Write* wr) { x.save(wr, g); }), o.bytes(), {{0xB100, 6}}, w, "skin");
	decoded(m, w + " (encoded)", "skin-decode", [&](Out& o, SoftSkinMesh& x) { mdl::encode(o, x, g, &s); }, same);
}
static std::string about(ModelMesh const& m) {
	return std::to_string(m.meshes.size()) + " skins, " + std::to_string(m.attachments.size()) + " attachments";
}
static void modelmesh(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	auto m = mdl::model_mesh(s, g);
	auto w = std::string(name(g)) + " model mesh: " + about(m);
	k.log << w << "\n";
	if (!m.meshes.empty() || m.attachments.size() > 1) k.nontrivial();
	auto same = [g](ModelMesh& a, ModelMesh& b, std::string const& w, std::string const& key) { mdl::same(a, b, g, w, key); };
	cycle(m, w, "model-mesh", [g](ModelMesh& x, Write* wr) { x.save(wr, g); }, same);
	Out o;
	mdl::encode(o, m, g, false, false);
	msh::layout(saved(m, [g](ModelMesh& x, Write* wr) { x.save(wr, g); }), o.bytes(), {{0xD020, 2}, {0xB100, 2}, {0xD030, 6}}, w, "model-mesh");
	bool quirk = s.flip(), source = s.flip();
	decoded(m, w + " (encoded)", "model-mesh-decode", [&](Out& o, ModelMesh& x) { mdl::encode(o, x, g, quirk, source, &s); }, same);
}
static void model(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	Model m;
	m.hierarchy = mdl::hierarchy(s), m.mesh = mdl::model_mesh(s, g);
	auto w = std::string(name(g)) + " model: " + std::to_string(m.hierarchy.nodes.size()) + " nodes, " + about(m.mesh);
	k.log << w << "\n";
	if (!m.hierarchy.nodes.empty() && (!m.mesh.meshes.empty() || !m.mesh.attachments.empty())) k.nontrivial();
	auto same = [g](Model& a, Model& b, std::string const& w, std::string const& key) {
		mdl::same(a.hierarchy, b.hierarchy, w, key + "-hierarchy");
		mdl::same(a.mesh, b.mesh, g, w, key + "-mesh");
	};
	cycle(m, w, "model", [g](Model& x, Write* wr) { x.save(wr, g); }, same);
	bool quirk = s.flip(), source = s.flip();
	decoded(m, w + " (encoded)", "model-decode", [&](Out& o, Model& x) { mdl::encode(o, x.hierarchy); mdl::encode(o, x.mesh, g, quirk, source, &s); }, same);
}
static void font(pbt::Case& k) {
	auto f = mdl::font(k.src);
	std::string w = "font with " + std::to_string(f.glyphs.size()) + " glyphs";
	k.log << w << "\n";
	if (f.glyphs.size() > 1) k.nontrivial();
	auto same = [](Font& a, Font& b, std::string const& w, std::string const& key) { mdl::same(a, b, w, key); };
	cycle(f, w, "font", [](Font& x, Write* wr) { x.save(wr); }, same);
	decoded(f, w + " (encoded)", "font-decode", [](Out& o, Font& x) { mdl::encode(o, x); }, same);
	// the saved file is the documented one
	Out o;
	mdl::encode(o, f);
	CHECK("font-bytes", saved(f, [](Font& x, Write* wr) { x.save(wr); }) == o.bytes(), w << " is not saved as documented");
}
/// Original files: what is loaded, saved and loaded again stays the same, for both games.
static void samples(pbt::Case& k) {
	auto& s = k.src;
	std::string const dir = "/repo/tests/samples/";
	auto g = game(s);
	auto open = [&](char const* f) { return read_file(dir + f); };
	auto load = [&](auto& x, Bytes const& b) { Exact e {b}; auto r = e.open(); x.load(r.get()); };
	unsigned pick = s.below(5);
	k.log << "sample " << pick << " " << name(g) << "\n";
	k.nontrivial();
	// the class version of the materials differs between the games, so a file is saved for the game it is from
	if (pick == 0) {
		ModelHierarchy h;
		auto f = open("hierarchy0.mdh");
		load(h, f);
		cycle(h, "hierarchy0.mdh", "sample-hierarchy", [](ModelHierarchy& x, Write* wr) { x.save(wr); }, [](ModelHierarchy& a, ModelHierarchy& b, std::string const& w, std::string const& key) { mdl::same(a, b, w, key); });
	} else if (pick == 1) {
		MultiResolutionMesh m;
		load(m, open("mesh0.mrm"));
		cycle(m, "mesh0.mrm", "sample-mrm", [](MultiResolutionMesh& x, Write* wr) { x.save(wr, GameVersion::GOTHIC_2); }, [](MultiResolutionMesh& a, MultiResolutionMesh& b, std::string const& w, std::string const& key) { mdl::same(a, b, GameVersion::GOTHIC_2, w, key); });
	} else if (pick < 4) {
		ModelMesh m;
		char const* f = pick == 2 ? "secretdoor.mdm" : "smoke_waterpipe.mdm";
		load(m, open(f));
		cycle(m, f, "sample-model-mesh", [](ModelMesh& x, Write* wr) { x.save(wr, GameVersion::GOTHIC_2); }, [](ModelMesh& a, ModelMesh& b, std::string const& w, std::string const& key) { mdl::same(a, b, GameVersion::GOTHIC_2, w, key); });
	} else {
		Font x;
		char const* f = g == GameVersion::GOTHIC_1 ? "G1/FONT_OLD_10_WHITE_HI.FNT" : "G2/FONT_OLD_10_WHITE_HI.FNT";
		auto b = open(f);
		load(x, b);
		CHECK("sample-font", saved(x, [](Font& v, Write* wr) { v.save(wr); }) == b, f << " is not saved as it was");
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C16", "the asset has content: nodes, glyphs, sub-meshes with positions, weights, skins or attachments",
	    {"texts fit on one line", "one weight list per position, one box per node, at most 255 sub-meshes", "vertex updates and the SOURCE chunk of model meshes are not kept by the library"},
	    {{"hierarchy", 40000, 10, hierarchy}, {"mrm", 60000, 12, mrm}, {"softskin", 40000, 12, softskin}, {"modelmesh", 24000, 12, modelmesh}, {"model", 12000, 12, model}, {"font", 30000, 8, font}, {"samples", 60, 4, samples}}};
	return pbt::main(argc, argv, cfg);
}
