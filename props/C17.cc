// C17: animations and morph meshes decode as the format specifies.
#include "modelgen.hh"
using namespace zenkit;

static void same(mdl::Anim& x, ModelAnimation& b, std::string const& w) {
	auto& a = x.a;
	using msh::eq;
#define FIELD(what, cond) CHECK("animation-" what, cond, w << ": " what " differs")
	FIELD("name", a.name == b.name);
	FIELD("next", a.next == b.next);
	FIELD("layer", a.layer == b.layer);
	FIELD("counts", a.frame_count == b.frame_count && a.node_count == b.node_count);
	FIELD("fps", eq(a.fps, b.fps) && eq(a.fps_source, b.fps_source));
	FIELD("quantisation", eq(a.sample_position_min, b.sample_position_min) && eq(a.sample_position_scale, b.sample_position_scale));
	FIELD("bbox", eq(a.bbox, b.bbox));
	FIELD("checksum", a.checksum == b.checksum);
	FIELD("source", eq(a.source_date, b.source_date) && a.source_path == b.source_path && a.source_script == b.source_script);
	FIELD("nodes", a.node_indices == b.node_indices);
	FIELD("event-count", a.events.size() == b.events.size());
	for (size_t i = 0; i < a.events.size(); ++i) {
		auto &p = a.events[i], &q = b.events[i];
		FIELD("event", p.type == q.type && p.frame == q.frame && p.tag == q.tag && eq(p.probability, q.probability));
		for (int j = 0; j < 4; ++j) {
			FIELD("event-content", p.content[j] == q.content[j]);
			FIELD("event-values", eq(p.values[j], q.values[j]));
		}
	}
#undef FIELD
	CHECK("sample-count", b.samples.size() == x.raw.size(), w << ": " << b.samples.size() << " samples, " << x.raw.size() << " stored");
	for (size_t i = 0; i < x.raw.size(); ++i) {
		auto& r = x.raw[i];
		auto& q = b.samples[i];
		double t[3], l = 0;
		for (int j = 0; j < 3; ++j) t[j] = (double(r[j]) - 32767) * (2.1 / 65535), l += t[j] * t[j];
		double e[4] {t[0], t[1], t[2], l > 1 ? 0 : std::sqrt(1 - l)};
		if (l > 1) for (int j = 0; j < 3; ++j) e[j] /= std::sqrt(l);
		float g[4] {q.rotation.x, q.rotation.y, q.rotation.z, q.rotation.w};
		double n = 0;
		for (float v : g) n += double(v) * v;
		for (int j = 0; j < 3; ++j)
			CHECK("rotation", std::abs(g[j] - e[j]) < 4e-6, w << ": sample " << i << " component " << j << " of the rotation stored as " << r[0] << " " << r[1] << " " << r[2] << " is " << g[j] << ", expected " << e[j]);
		// the root amplifies rounding near zero, so the square is compared
		CHECK("rotation-w", g[3] >= 0 && std::abs(double(g[3]) * g[3] - e[3] * e[3]) < 4e-6, w << ": w of sample " << i << " is " << g[3] << ", expected " << e[3]);
		CHECK("rotation-unit", std::abs(n - 1) < 1e-5, w << ": sample " << i << " has the norm " << n);
		float p[3] {q.position.x, q.position.y, q.position.z};
		for (int j = 0; j < 3; ++j) {
			double scaled = double(r[3 + j]) * a.sample_position_scale, v = scaled + a.sample_position_min;
			double mag = std::abs(scaled) + std::abs(double(a.sample_position_min));
			if (mag > 3e38) continue; // not a number a sample could have been packed from
			CHECK("position", std::abs(p[j] - v) <= mag * 1e-6 + 1e-40, w << ": component " << j << " of position " << i << " stored as " << r[3 + j] << " is " << p[j] << ", expected " << v);
		}
	}
}
static void animation(pbt::Case& k) {
	auto& s = k.src;
	auto x = mdl::animation(s);
	std::ostringstream w;
	w << "animation with " << x.a.frame_count << " frames, " << x.a.node_count << " nodes, " << x.a.events.size() << " events";
	k.log << w.str() << "\n";
	if (!x.raw.empty() || x.a.events.size() > 1) k.nontrivial();
	Out o;
	mdl::encode(o, x);
	Exact e {o.bytes()};
	auto r = e.open();
	ModelAnimation b;
	b.load(r.get());
	same(x, b, w.str());
}
static void morph(pbt::Case& k) {
	auto& s = k.src;
	auto x = mdl::morph(s);
	std::ostringstream w;
	w << "morph mesh with " << x.m.mesh.positions.size() << " positions, " << x.m.animations.size() << " animations, " << x.m.sources.size() << " sources";
	k.log << w.str() << "\n";
	if (!x.m.animations.empty() && !x.m.morph_positions.empty()) k.nontrivial();
	Out o;
	mdl::encode(o, x, &s);
	Exact e {o.bytes()};
	auto r = e.open();
	MorphMesh b;
	b.load(r.get());
	mdl::same(x, b, w.str(), "morph");
}
/// Every stored value of one rotation component and of one position component.
static void quantised(pbt::Case& k) {
	auto& s = k.src;
	mdl::Anim x;
	x.source = x.events = false;
	x.a.name = "A", x.a.frame_count = 64, x.a.node_count = 1, x.a.node_indices = {0}, x.a.checksum = s.u32();
	x.a.sample_position_min = static_cast<float>(s.range(-10000, 10000)) / 16, x.a.sample_position_scale = static_cast<float>(s.range(1, 65536)) / 65536;
	uint16_t first = static_cast<uint16_t>(s.below(1024) * 64);
	unsigned axis = s.below(3);
	for (unsigned i = 0; i < 64; ++i) {
		std::array<uint16_t, 6> r {32767, 32767, 32767, 0, 0, 0};
		r[axis] = r[3 + axis] = static_cast<uint16_t>(first + i);
		if (s.flip()) r[(axis + 1) % 3] = s.u16();
		x.raw.push_back(r);
	}
	k.log << "stored values from " << first << " on axis " << axis << "\n";
	k.nontrivial();
	Out o;
	mdl::encode(o, x);
	Exact e {o.bytes()};
	auto r = e.open();
	ModelAnimation b;
	b.load(r.get());
	same(x, b, "quantised samples");
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C17", "the animation has samples or several events; the morph mesh has positions and animations",
	    {"texts fit on one line", "positions are compared up to rounding; scales and minima for which they overflow are not judged", "the rotation is compared up to rounding"},
	    {{"animation", 120000, 12, animation}, {"morph", 50000, 12, morph}, {"quantised", 30000, 6, quantised}}};
	return pbt::main(argc, argv, cfg);
}
