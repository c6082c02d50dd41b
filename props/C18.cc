// C18: unknown chunks and surplus chunk data do not change what is loaded.
#include "mdsgen.hh"
#include "modelgen.hh"
#include "worldgen.hh"
using namespace zenkit;

static GameVersion game(pbt::Src& s) { return s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1; }
static msh::Noise noise(pbt::Src& s) {
	msh::Noise::chunks = msh::Noise::surplus = 0;
	return {&s};
}
static std::string count(pbt::Case& k, char const* what) {
	if (msh::Noise::chunks + msh::Noise::surplus > 0) k.nontrivial();
	std::ostringstream o;
	o << what << " with " << msh::Noise::chunks << " unknown chunks and " << msh::Noise::surplus << " oversized chunks";
	k.log << o.str() << "\n";
	return o.str();
}
/// With something behind the asset that is not part of it, unless the asset ends with the file.
template <typename T>
static T load(Out const& o, std::string const& w, bool ends) {
	auto b = o.bytes();
	auto end = b.size();
	if (ends) for (int i = 0; i < 8; ++i) b.push_back(std::byte {0x55});
	Exact e {b};
	auto r = e.open();
	T x {};
	x.load(r.get());
	if (ends) CHECK("extent", r->tell() == end, w << ": loading stopped at " << r->tell() << " of " << end);
	return x;
}
static void mesh(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	bool wide = s.chance(1, 4), single = s.flip();
	auto m = msh::mesh(s, g, wide || g == GameVersion::GOTHIC_2, 6);
	Out o;
	msh::encode(o, m, g, wide, single, noise(s));
	auto w = count(k, "mesh");
	Exact e {o.bytes()};
	auto r = e.open();
	Mesh b;
	b.load(r.get(), wide);
	CHECK("extent", r->tell() == o.size(), w << ": loading stopped at " << r->tell() << " of " << o.size());
	msh::same(m, b, g, !single, w, "mesh");
}
static void model(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	Out o;
	auto n = noise(s);
	switch (s.below(5)) {
	case 0: {
		auto m = mdl::hierarchy(s);
		mdl::encode(o, m, n);
		auto w = count(k, "hierarchy");
		auto b = load<ModelHierarchy>(o, w, true);
		return mdl::same(m, b, w, "hierarchy");
	}
	case 1: {
		auto m = mdl::mrm(s, g, 4);
		mdl::encode(o, m, g, &s, n);
		auto w = count(k, "multi-resolution mesh");
		auto b = load<MultiResolutionMesh>(o, w, true);
		return mdl::same(m, b, g, w, "mrm");
	}
	case 2: {
		auto m = mdl::soft_skin(s, g, 4);
		mdl::encode(o, m, g, &s, n);
		auto w = count(k, "soft skin");
		auto b = load<SoftSkinMesh>(o, w, true);
		return mdl::same(m, b, g, w, "skin");
	}
	case 3: {
		auto m = mdl::model_mesh(s, g);
		bool quirk = s.flip(), source = s.flip();
		mdl::encode(o, m, g, quirk, source, &s, n);
		auto w = count(k, "model mesh");
		auto b = load<ModelMesh>(o, w, true);
		return mdl::same(m, b, g, w, "model-mesh");
	}
	default: {
		Model m;
		m.hierarchy = mdl::hierarchy(s), m.mesh = mdl::model_mesh(s, g);
		bool quirk = s.flip(), source = s.flip();
		mdl::encode(o, m.hierarchy, n), mdl::encode(o, m.mesh, g, quirk, source, &s, n);
		auto w = count(k, "model");
		auto b = load<Model>(o, w, true);
		mdl::same(m.hierarchy, b.hierarchy, w, "model-hierarchy");
		return mdl::same(m.mesh, b.mesh, g, w, "model-mesh");
	}
	}
}
static void animation(pbt::Case& k) {
	auto& s = k.src;
	auto x = mdl::animation(s, 4);
	Out o, plain;
	auto n = noise(s);
	mdl::encode(o, x, n), n.stray(o);
	auto w = count(k, "animation");
	mdl::encode(plain, x);
	// how the content is to be decoded is another property (C17): here, the noise must not make a difference
	auto a = load<ModelAnimation>(plain, w, false), b = load<ModelAnimation>(o, w, false);
	using msh::eq;
	CHECK("animation-header", a.name == b.name && a.next == b.next && a.layer == b.layer && a.frame_count == b.frame_count && a.node_count == b.node_count && eq(a.fps, b.fps) && eq(a.fps_source, b.fps_source) && eq(a.bbox, b.bbox) && a.checksum == b.checksum && eq(a.sample_position_min, b.sample_position_min) && eq(a.sample_position_scale, b.sample_position_scale), w << ": the header differs");
	CHECK("animation-source", eq(a.source_date, b.source_date) && a.source_path == b.source_path && a.source_script == b.source_script, w << ": the source differs");
	CHECK("animation-nodes", a.node_indices == b.node_indices && a.samples.size() == b.samples.size(), w << ": the nodes differ");
	for (size_t i = 0; i < a.samples.size(); ++i)
		CHECK("animation-sample", eq(a.samples[i].position, b.samples[i].position) && eq(a.samples[i].rotation.x, b.samples[i].rotation.x) && eq(a.samples[i].rotation.y, b.samples[i].rotation.y) && eq(a.samples[i].rotation.z, b.samples[i].rotation.z) && eq(a.samples[i].rotation.w, b.samples[i].rotation.w), w << ": a sample differs");
	CHECK("animation-events", a.events.size() == b.events.size() && a.events.size() == x.a.events.size(), w << ": the number of events differs");
	for (size_t i = 0; i < a.events.size(); ++i) {
		auto &p = a.events[i], &q = b.events[i];
		CHECK("animation-event", p.type == q.type && p.frame == q.frame && p.tag == q.tag && eq(p.probability, q.probability), w << ": an event differs");
		for (int j = 0; j < 4; ++j) CHECK("animation-event", p.content[j] == q.content[j] && eq(p.values[j], q.values[j]), w << ": an event differs");
	}
}
static void morph(pbt::Case& k) {
	auto& s = k.src;
	auto x = mdl::morph(s, 4);
	Out o;
	auto n = noise(s);
	mdl::encode(o, x, &s, n), n.stray(o);
	auto w = count(k, "morph mesh");
	auto b = load<MorphMesh>(o, w, false);
	mdl::same(x, b, w, "morph");
}
static void script(pbt::Case& k) {
	auto& s = k.src;
	auto x = mds::script(s);
	auto n = noise(s);
	auto o = mds::write_binary(s, x, n);
	n.stray(o);
	auto w = count(k, "compiled model script");
	auto b = load<ModelScript>(o, w, false);
	mds::same(x, b, false, w, "script");
}
static void bsp(pbt::Case& k) {
	auto& s = k.src;
	auto g = game(s);
	auto t = wld::bsp(s, g, 8);
	Out o;
	wld::encode(o, t, g, noise(s));
	auto w = count(k, "BSP tree");
	auto b = o.bytes();
	auto end = b.size();
	for (int i = 0; i < 8; ++i) b.push_back(std::byte {0x55});
	Exact e {b};
	auto r = e.open();
	BspTree u;
	u.load(r.get(), g == GameVersion::GOTHIC_2 ? 0x4090000 : 0x2090000);
	CHECK("extent", r->tell() == end, w << ": loading stopped at " << r->tell() << " of " << end);
	wld::same(t, u, g, w);
}
static void world(pbt::Case& k) {
	auto& s = k.src;
	auto c = fld::gen_ctx(s);
	c.save = false, c.unknown = false;
	auto w = wld::world(s, c);
	uint32_t n = 0;
	auto it = wld::items(*w, c, s.flip(), s.flip(), false, n, noise(s));
	auto about = count(k, "world");
	auto file = arch::encode(c.fmt, false, {it}, n);
	Exact e {file};
	auto r = e.open();
	World got;
	got.load(r.get(), c.g);
	wld::same(*w, got, c, about);
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C18", "at least one unknown chunk or one chunk with surplus bytes was inserted",
	    {"texts fit on one line", "no surplus bytes in the soft-skin chunk of model meshes, whose stored length does not cover its content"},
	    {{"mesh", 30000, 12, mesh}, {"model", 40000, 12, model}, {"animation", 40000, 12, animation}, {"morph", 20000, 12, morph}, {"script", 40000, 12, script}, {"bsp", 40000, 12, bsp}, {"world", 8000, 12, world}}};
	return pbt::main(argc, argv, cfg);
}
