// C15: world meshes round-trip and triangulate faithfully.
#include "meshgen.hh"
using namespace zenkit;

static std::string about(Mesh const& m, GameVersion g, bool wide) {
	std::ostringstream o;
	o << (g == GameVersion::GOTHIC_1 ? "G1" : "G2") << (wide ? " wide" : "") << " mesh with " << m.materials.size() << " materials, " << m.vertices.size() << " vertices, " << m.features.size()
	  << " features, " << m.geometry.size() << " polygons, " << m.lightmaps.size() << " lightmaps";
	return o.str();
}
static void rich(pbt::Case& k, Mesh const& m) {
	if (m.geometry.size() > 1 && (!m.materials.empty() || !m.lightmaps.empty())) k.nontrivial();
}
static void roundtrip(pbt::Case& k) {
	auto& s = k.src;
	auto g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	auto m = msh::mesh(s, g, g == GameVersion::GOTHIC_2);
	if (s.chance(1, 300)) { // counts above 16 bits
		auto n = 65536 + s.below(9);
		if (s.flip()) for (size_t i = 0; i < n; ++i) m.vertices.push_back({float(i), 1, 2});
		else for (size_t i = 0; i < n; ++i) m.features.push_back({{float(i), 1}, static_cast<uint32_t>(i), {0, 1, 0}});
		k.tag("large");
	}
	auto w = about(m, g, false);
	k.log << w << "\n";
	rich(k, m);
	std::vector<uint32_t> leaf;
	bool tri = s.flip();
	if (tri) leaf = msh::leaves(s, m), msh::triangulate(m, leaf);
	Bytes file;
	{
		auto wr = Write::to(&file);
		m.save(wr.get(), g);
	}
	Out o;
	msh::encode(o, m, g, false, false);
	msh::layout(file, o.bytes(), {{0xB020, 0}, {0xB026, 4}}, w, "saved");
	size_t end = file.size();
	file.push_back(std::byte {0x55});
	Exact e {file};
	auto r = e.open();
	Mesh b;
	if (tri) b.load(r.get(), leaf, false);
	else b.load(r.get(), false);
	CHECK("roundtrip-extent", r->tell() == end, w << ": loading stopped at " << r->tell() << " of " << end);
	msh::same(m, b, g, true, w + (tri ? " (triangulated)" : ""), "roundtrip");
	// and a loaded mesh can be saved again
	Bytes again;
	auto wr = Write::to(&again);
	b.save(wr.get(), g);
	Exact e2 {again};
	Mesh c;
	auto r2 = e2.open();
	if (tri) c.load(r2.get(), leaf, false);
	else c.load(r2.get(), false);
	msh::same(m, c, g, true, w + " saved twice", "again");
}
static void decode(pbt::Case& k) {
	auto& s = k.src;
	auto g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	bool wide = s.chance(1, 4), single = s.flip(), tri = s.flip();
	auto m = msh::mesh(s, g, wide || g == GameVersion::GOTHIC_2);
	auto w = about(m, g, wide);
	k.log << w << (single ? " single" : " shared") << "\n";
	rich(k, m);
	auto leaf = msh::leaves(s, m);
	if (tri) msh::triangulate(m, leaf);
	Out o;
	msh::encode(o, m, g, wide, single);
	Exact e {o.bytes()};
	auto r = e.open();
	Mesh b;
	if (tri) b.load(r.get(), leaf, wide);
	else b.load(r.get(), wide);
	CHECK("decode-extent", r->tell() == o.size(), w << ": loading stopped at " << r->tell() << " of " << o.size());
	msh::same(m, b, g, !single, w + " (encoded)", "decode");
}
static void corners(OrientedBoundingBox const& o, double (&lo)[3], double (&hi)[3], double& mag) {
	float const hw[3] {o.half_width.x, o.half_width.y, o.half_width.z}, c[3] {o.center.x, o.center.y, o.center.z};
	for (int i = 0; i < 3; ++i) lo[i] = HUGE_VAL, hi[i] = -HUGE_VAL;
	for (int m = 0; m < 8; ++m) {
		double p[3] {c[0], c[1], c[2]};
		for (int a = 0; a < 3; ++a) {
			float const ax[3] {o.axes[a].x, o.axes[a].y, o.axes[a].z};
			for (int i = 0; i < 3; ++i) { double d = double(ax[i]) * hw[a]; p[i] += m >> a & 1 ? d : -d; mag = std::max(mag, std::abs(d)); }
		}
		for (int i = 0; i < 3; ++i) lo[i] = std::min(lo[i], p[i]), hi[i] = std::max(hi[i], p[i]), mag = std::max(mag, std::abs(p[i]));
	}
}
static void box(pbt::Case& k) {
	auto& s = k.src;
	OrientedBoundingBox o;
	auto num = [&] { return static_cast<float>(s.range(-4000, 4000)) / 8.f; };
	o.center = {num(), num(), num()};
	for (auto& a : o.axes) a = {num() / 100, num() / 100, num() / 100};
	o.half_width = {std::abs(num()), std::abs(num()), std::abs(num())};
	k.nontrivial();
	double lo[3], hi[3], mag = 1;
	corners(o, lo, hi, mag);
	auto b = o.as_bbox();
	double const gl[3] {b.min.x, b.min.y, b.min.z}, gh[3] {b.max.x, b.max.y, b.max.z}, eps = mag * 1e-5;
	k.log << "center " << o.center.x << " " << o.center.y << " " << o.center.z << "\n";
	for (int i = 0; i < 3; ++i)
		CHECK("box", std::abs(gl[i] - lo[i]) <= eps && std::abs(gh[i] - hi[i]) <= eps, "axis " << i << ": box is [" << gl[i] << ", " << gh[i] << "], corners span [" << lo[i] << ", " << hi[i] << "]");
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C15", "more than one polygon and at least one material or lightmap",
	    {"texts fit on one line", "Gothic 1 vertex indices up to 16 bits unless wide indices are forced", "boxes: axes and half widths of moderate size"},
	    {{"roundtrip", 120000, 12, roundtrip}, {"decode", 120000, 12, decode}, {"box", 40000, 5, box}}};
	return pbt::main(argc, argv, cfg);
}
