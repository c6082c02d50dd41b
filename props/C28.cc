// C28: value types (vectors, matrices, colours, samples, flags, case-insensitive names) behave by component.
#include "common.hh"
#include "pbt.hh"
#include <zenkit/Boxes.hh>
#include <zenkit/Font.hh>
#include <zenkit/Mesh.hh>
#include <zenkit/Misc.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/vobs/Trigger.hh>
#include <cmath>
#include <memory>
using namespace zenkit;

// Objects live in heap blocks of exactly their size, so that an access outside of them is noticed.
template <class V> struct Cell {
	std::unique_ptr<V> p;
	explicit Cell(V const& v) : p(new V(v)) {}
	V& operator*() { return *p; }
	V const& c() const { return *p; }
};
static float number(pbt::Src& s) { return s.chance(1, 3) ? s.pick({0.f, -0.f, 1.f, -1.f, 1e-38f, 3e38f}) : s.nice(); }
template <class T> static bool equal(T const& a, T const& b) { bool e = a == b; CHECK("symmetric", e == (b == a), "a == b but not b == a"); return e; }
template <class T> static void expect_equal(T const& a, T const& b, bool want, std::string const& w) {
	CHECK("equality", equal(a, b) == want, w << ": == is " << !want << " for values which are " << (want ? "the same" : "different"));
}
/// Vectors: `n` components x..w and the order the accessors list them in.
template <class V> static void vec(pbt::Case& k, std::vector<float V::*> m, std::string const& w) {
	auto& s = k.src;
	V v {};
	for (auto f : m) CHECK("zero", v.*f == 0, w << ": a new value is not zero");
	std::vector<float> x;
	for (auto f : m) x.push_back(v.*f = number(s));
	Cell<V> c(v);
	auto const& cc = c.c();
	for (unsigned i = 0; i < m.size(); ++i) {
		CHECK("index", (*c)[i] == x[i] && cc[i] == x[i] && (*c).pointer()[i] == x[i] && cc.pointer()[i] == x[i], w << ": component " << i << " is not found by its index");
		CHECK("index-address", &(*c)[i] == &((*c).*m[i]), w << ": index " << i << " is another component");
	}
	auto j = s.below(m.size());
	V o = v;
	o.*m[j] = number(s);
	k.log << w << " component " << j << " " << x[j] << " against " << o.*m[j] << "\n";
	expect_equal(v, o, x[j] == o.*m[j], w);
	expect_equal(v, v, true, w);
	(*c)[static_cast<unsigned>(j)] = 42;
	for (unsigned i = 0; i < m.size(); ++i) CHECK("assign", (*c).*m[i] == (i == j ? 42 : x[i]), w << ": assigning component " << j << " changed component " << i);
}
template <class V> static void scale(pbt::Case& k, std::vector<float V::*> m, std::string const& w) {
	auto& s = k.src;
	V a {}, b {};
	for (auto f : m) a.*f = s.nice(), b.*f = s.nice();
	float q = s.nice();
	V p = a * q, r = a * b;
	for (auto f : m) {
		CHECK("scale", p.*f == (a.*f) * q, w << ": a component was not scaled");
		CHECK("product", r.*f == (a.*f) * (b.*f), w << ": a component of the product is wrong");
	}
	V u(q);
	for (auto f : m) CHECK("splat", u.*f == q, w << ": built of one number, the components differ from it");
}
template <class M, class V, unsigned N> static void mat(pbt::Case& k, std::vector<float V::*> m, std::string const& w) {
	auto& s = k.src;
	M a;
	float x[N][N];
	for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { CHECK("zero", a.columns[i].*m[j] == 0, w << ": a new matrix is not zero"); a.columns[i].*m[j] = x[i][j] = number(s); }
	Cell<M> c(a);
	for (unsigned i = 0; i < N; ++i)
		for (unsigned j = 0; j < N; ++j) {
			CHECK("index", (*c)[i][j] == x[i][j] && c.c()[i][j] == x[i][j], w << ": element " << i << "," << j << " is not found");
			CHECK("pointer", (*c).pointer()[i * N + j] == x[i][j] && c.c().pointer()[i * N + j] == x[i][j], w << ": element " << i << "," << j << " is not found behind pointer()");
		}
	M t = a.transpose();
	for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) CHECK("transpose", t[j][i] == x[i][j], w << ": element " << i << "," << j << " was not moved by transposing");
	CHECK("transpose-twice", t.transpose() == a, w << ": transposing twice is not the identity");
	M e = M::identity();
	for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) CHECK("identity", e[i][j] == (i == j ? 1 : 0), w << ": identity has " << e[i][j] << " at " << i << "," << j);
	unsigned i = s.below(N), j = s.below(N);
	M o = a;
	o[i][j] = number(s);
	k.log << w << " element " << i << "," << j << " " << x[i][j] << " against " << o[i][j] << "\n";
	expect_equal(a, o, x[i][j] == o[i][j], w);
}
static void values(pbt::Case& k) {
	auto& s = k.src;
	k.nontrivial();
	switch (s.below(7)) {
	case 0: vec<Vec2>(k, {&Vec2::x, &Vec2::y}, "Vec2"), scale<Vec2>(k, {&Vec2::x, &Vec2::y}, "Vec2"); break;
	case 1: vec<Vec3>(k, {&Vec3::x, &Vec3::y, &Vec3::z}, "Vec3"), scale<Vec3>(k, {&Vec3::x, &Vec3::y, &Vec3::z}, "Vec3"); break;
	case 2: vec<Vec4>(k, {&Vec4::x, &Vec4::y, &Vec4::z, &Vec4::w}, "Vec4"), scale<Vec4>(k, {&Vec4::x, &Vec4::y, &Vec4::z, &Vec4::w}, "Vec4"); break;
	case 3: vec<Quat>(k, {&Quat::x, &Quat::y, &Quat::z, &Quat::w}, "Quat"); break;
	case 4: mat<Mat3, Vec3, 3>(k, {&Vec3::x, &Vec3::y, &Vec3::z}, "Mat3"); break;
	case 5: mat<Mat4, Vec4, 4>(k, {&Vec4::x, &Vec4::y, &Vec4::z, &Vec4::w}, "Mat4"); break;
	default: {
		Color a {s.u8(), s.u8(), s.u8(), s.u8()};
		Cell<Color> c(a);
		unsigned char x[] {a.r, a.g, a.b, a.a};
		for (unsigned i = 0; i < 4; ++i) CHECK("index", (*c)[i] == x[i] && c.c()[i] == x[i] && c.c().pointer()[i] == x[i], "Color: component " << i << " is not found by its index");
		Color b = a;
		auto i = s.below(4);
		b[static_cast<unsigned>(i)] = s.u8();
		k.log << "Color component " << i << " " << int(x[i]) << " against " << int(b[static_cast<unsigned>(i)]) << "\n";
		expect_equal(a, b, x[i] == b[static_cast<unsigned>(i)], "Color");
		CHECK("colour-zero", Color {} == Color(0, 0, 0, 0), "a new colour is not zero");
	}
	}
}
static void records(pbt::Case& k) {
	auto& s = k.src;
	k.nontrivial();
	switch (s.below(4)) {
	case 0: {
		AnimationSample a {{number(s), number(s), number(s)}, {number(s), number(s), number(s), number(s)}}, b = a;
		float* q[] {&b.position.x, &b.position.y, &b.position.z, &b.rotation.w, &b.rotation.x, &b.rotation.y, &b.rotation.z};
		auto& f = *q[s.below(7)];
		float old = f;
		f = number(s);
		k.log << "AnimationSample " << old << " against " << f << "\n";
		expect_equal(a, b, old == f, "AnimationSample");
		break;
	}
	case 1: {
		FontGlyph a {s.u8(), {{number(s), number(s)}, {number(s), number(s)}}}, b = a;
		bool same;
		if (s.chance(1, 3)) b.width = s.u8(), same = a.width == b.width;
		else {
			float* q[] {&b.uv[0].x, &b.uv[0].y, &b.uv[1].x, &b.uv[1].y};
			auto& f = *q[s.below(4)];
			float old = f;
			f = number(s), same = old == f;
		}
		k.log << "FontGlyph " << same << "\n";
		expect_equal(a, b, same, "FontGlyph");
		break;
	}
	case 2: {
		PolygonFlagSet a {};
		a.is_portal = s.below(4) & 3, a.is_occluder = s.flip(), a.is_sector = s.flip(), a.should_relight = s.flip(), a.is_outdoor = s.flip();
		a.is_ghost_occluder = s.flip(), a.is_dynamically_lit = s.flip(), a.sector_index = static_cast<int16_t>(s.u16()), a.is_lod = s.flip(), a.normal_axis = s.below(4) & 3;
		auto b = a;
		auto which = s.below(11);
		switch (which) {
		case 0: b.is_portal ^= 1; break;
		case 1: b.is_portal ^= 2; break;
		case 2: b.is_occluder ^= 1; break;
		case 3: b.is_sector ^= 1; break;
		case 4: b.should_relight ^= 1; break;
		case 5: b.is_outdoor ^= 1; break;
		case 6: b.is_ghost_occluder ^= 1; break;
		case 7: b.is_dynamically_lit ^= 1; break;
		case 8: b.sector_index = static_cast<int16_t>(b.sector_index ^ 1 << s.below(16)); break;
		case 9: b.is_lod ^= 1; break;
		default: b.normal_axis ^= s.flip() ? 1 : 2;
		}
		k.log << "PolygonFlagSet " << which << "\n";
		expect_equal(a, b, false, "PolygonFlagSet");
		expect_equal(a, PolygonFlagSet(a), true, "PolygonFlagSet");
		break;
	}
	default: {
		VTriggerList::Target a {s.ident(6), number(s)}, b = a;
		bool same;
		if (s.flip()) b.name = s.flip() ? s.ident(6) : b.name + "x", same = a.name == b.name;
		else b.delay = number(s), same = a.delay == b.delay;
		k.log << "Target " << same << "\n";
		expect_equal(a, b, same, "VTriggerList::Target");
	}
	}
}
// Names: equal when they differ in the case of ASCII letters only; ordered as their folded bytes.
static std::string fold(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
static void names(pbt::Case& k) {
	auto& s = k.src;
	auto name = [&] { return s.chance(1, 3) ? s.ident(8) : s.str(s.chance(1, 3) ? 2 : 10); };
	auto vary = [&](std::string v) {
		for (auto& c : v) if (s.chance(1, 3)) { if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); else if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); }
		switch (s.below(6)) {
		case 0: v += s.pick({'a', 'Z', ' ', '_'}); break;
		case 1: if (!v.empty()) v.pop_back(); break;
		case 2: if (!v.empty()) v[s.below(v.size())] ^= static_cast<char>(1 << s.below(7)); break;
		default: break;
		}
		return v;
	};
	std::string n[3] {name()};
	n[1] = s.flip() ? vary(n[0]) : name(), n[2] = s.flip() ? vary(n[1]) : name();
	for (auto& x : n) k.log << pbt::quote(x) << " ";
	k.log << "\n";
	if (fold(n[0]) == fold(n[1]) && n[0] != n[1]) k.tag("equal but for case"), k.nontrivial();
	else if (n[0].size() > 1) k.nontrivial();
	auto ascii = [](std::string const& x) { for (unsigned char c : x) if (c > 127) return false; return true; };
	for (auto& a : n)
		for (auto& b : n) {
			// views into larger memory: nothing behind the names counts
			std::string A = a + "tail", B = b + "LIAT";
			std::string_view va(A.data(), a.size()), vb(B.data(), b.size());
			CHECK("iequals", iequals(va, vb) == (fold(a) == fold(b)), "iequals(" << pbt::quote(a) << ", " << pbt::quote(b) << ") is " << iequals(va, vb));
			bool l = icompare(va, vb), g = icompare(vb, va);
			CHECK("order-both", !(l && g), pbt::quote(a) << " and " << pbt::quote(b) << " are each in front of the other");
			CHECK("order-equal", (!l && !g) == (fold(a) == fold(b)), "the order of " << pbt::quote(a) << " and " << pbt::quote(b) << " does not agree with their being equal");
			if (ascii(a) && ascii(b)) CHECK("order", l == (fold(a) < fold(b)), "icompare(" << pbt::quote(a) << ", " << pbt::quote(b) << ") is " << l);
			for (auto& c : n) CHECK("order-transitive", !(l && icompare(b, c)) || icompare(a, c), "the order of " << pbt::quote(a) << ", " << pbt::quote(b) << ", " << pbt::quote(c) << " is not transitive");
		}
}
// The box around an oriented box holds its eight corners (and those of nothing else), children do not count.
static void boxes(pbt::Case& k) {
	auto& s = k.src;
	k.nontrivial();
	AxisAlignedBoundingBox z = AxisAlignedBoundingBox::zero();
	CHECK("box-zero", z.min == Vec3 {} && z.max == Vec3 {}, "the zero box is not zero");
	OrientedBoundingBox o {};
	o.center = {s.nice(), s.nice(), s.nice()}, o.half_width = {std::fabs(s.nice()), std::fabs(s.nice()), std::fabs(s.nice())};
	if (s.flip()) o.axes[0] = {1, 0, 0}, o.axes[1] = {0, 1, 0}, o.axes[2] = {0, 0, 1};
	else for (auto& a : o.axes) { a = {s.nice(), s.nice(), s.nice()}; }
	auto b = o.as_bbox();
	double lo[3], hi[3], big = 1;
	for (unsigned c = 0; c < 3; ++c) {
		lo[c] = INFINITY, hi[c] = -INFINITY;
		for (int corner = 0; corner < 8; ++corner) {
			double v = o.center[c];
			for (unsigned a = 0; a < 3; ++a) v += (corner >> a & 1 ? 1 : -1) * double(o.half_width[a]) * double(o.axes[a][c]);
			lo[c] = std::min(lo[c], v), hi[c] = std::max(hi[c], v);
		}
		big = std::max({big, std::fabs(lo[c]), std::fabs(hi[c]), std::fabs(double(o.center[c]))});
		for (unsigned a = 0; a < 3; ++a) big = std::max(big, std::fabs(double(o.half_width[a]) * o.axes[a][c]));
	}
	k.log << "box around (" << o.center.x << " " << o.center.y << " " << o.center.z << ") half width (" << o.half_width.x << " " << o.half_width.y << " " << o.half_width.z << ")\n";
	for (unsigned c = 0; c < 3; ++c)
		CHECK("box", std::fabs(b.min[c] - lo[c]) <= 1e-4 * big && std::fabs(b.max[c] - hi[c]) <= 1e-4 * big, "the box is " << b.min[c] << " to " << b.max[c] << " instead of " << lo[c] << " to " << hi[c] << " in direction " << c);
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C28", "a value, two names of which the first is longer than one character or equal but for case, or a box",
	    {"names are compared by ASCII case only, as in the C locale", "boxes are compared up to rounding"},
	    {{"values", 300000, 20, values}, {"records", 200000, 20, records}, {"names", 300000, 20, names}, {"boxes", 60000, 20, boxes}}};
	return pbt::main(argc, argv, cfg);
}
