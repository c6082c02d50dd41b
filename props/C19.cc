// C19: textures keep their pixels through load, save, build and conversion.
#include "pbt.hh"
#include "tex.hh"
#include <zenkit/addon/texcvt.hh>
using namespace zenkit;
using tex::F;

static std::string what(tex::Model const& m) {
	return std::string(tex::name(m.fmt)) + " " + std::to_string(m.w) + "x" + std::to_string(m.h) + " levels " + std::to_string(m.levels.size());
}
static Bytes save(Texture const& t) {
	Bytes b;
	auto w = Write::to(&b);
	t.save(w.get());
	return b;
}
static void pixels(Texture const& t, uint32_t l, std::vector<tex::Px> const& want, int const (&slack)[4], std::string const& ctx, char const* key) {
	auto got = t.as_rgba8(l);
	CHECK(key, got.size() == want.size() * 4, ctx << " level " << l << ": RGBA has " << got.size() << " bytes, " << want.size() * 4 << " expected");
	for (size_t i = 0; i < want.size(); ++i)
		for (int c = 0; c < 4; ++c)
			CHECK(key, std::abs(int(got[i * 4 + c]) - want[i].c[c]) <= slack[c], ctx << " level " << l << " pixel " << i << " channel " << "RGBA"[c] << " is " << int(got[i * 4 + c]) << ", " << want[i].c[c] << " expected");
}
static void geometry(Texture const& t, tex::Model const& m, std::string const& ctx) {
	CHECK("header", t.format() == m.fmt && t.width() == m.w && t.height() == m.h && t.mipmaps() == m.levels.size() && t.ref_width() == m.ref_w && t.ref_height() == m.ref_h && t.average_color() == m.avg,
	      ctx << ": header fields differ: format " << int(t.format()) << " " << t.width() << "x" << t.height() << " levels " << t.mipmaps() << " ref " << t.ref_width() << "x" << t.ref_height() << " average " << t.average_color());
	for (uint32_t l = 0; l < m.levels.size(); ++l) {
		CHECK("level-size", t.mipmap_width(l) == tex::dim(m.w, l) && t.mipmap_height(l) == tex::dim(m.h, l),
		      ctx << " level " << l << " reports " << t.mipmap_width(l) << "x" << t.mipmap_height(l) << ", " << tex::dim(m.w, l) << "x" << tex::dim(m.h, l) << " expected");
		CHECK("level-bytes", t.data(l).size() == tex::size(m.fmt, tex::dim(m.w, l), tex::dim(m.h, l)), ctx << " level " << l << " has " << t.data(l).size() << " bytes");
	}
}
static void dds(Texture const& t, std::string const& ctx) {
	auto d = to_dds(t);
	auto u = [&](size_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= uint32_t(d.at(at + i)) << (8 * i); return v; };
	CHECK("dds", d.size() >= 128 && u(0) == 0x20534444 && u(4) == 124, ctx << ": not a DDS file");
	CHECK("dds-size", u(12) == t.height() && u(16) == t.width(), ctx << ": DDS is " << u(16) << "x" << u(12));
	uint32_t levels = (u(8) & 0x20000) ? u(28) : 1;
	CHECK("dds-levels", levels == t.mipmaps(), ctx << ": DDS has " << levels << " levels, texture " << t.mipmaps());
	CHECK("dds-flags", (u(8) & 0x1007) == 0x1007 && (u(108) & 0x1000), ctx << ": DDS lacks required flags " << u(8));
	bool dxt = int(t.format()) >= int(F::DXT1);
	CHECK("dds-format", u(76) == 32 && ((u(80) & 4) != 0) == dxt && (!dxt || u(84) == (0x30545844u | 0u) + ((uint32_t(t.format()) - 9) << 24)), ctx << ": DDS pixel format " << u(80) << " fourcc " << std::hex << u(84));
	uint32_t bpp = tex::size(t.format(), 4, 4) / 2; // bits per pixel
	auto pitch = dxt ? tex::size(t.format(), t.width(), t.height()) : t.width() * bpp / 8;
	CHECK("dds-pitch", (u(8) & 0x80008) == (dxt ? 0x80000u : 8u) && u(20) == pitch, ctx << ": DDS pitch " << u(20) << ", expected " << pitch << ", flags " << u(8));
	if (!dxt && t.format() != F::P8) {
		// a reader which follows the channel masks sees the pixels the library's own conversion yields
		bool alpha = t.format() != F::B8G8R8 && t.format() != F::R8G8B8 && t.format() != F::R5G6B5;
		CHECK("dds-format", u(88) == bpp && (u(80) & 0x41) == (alpha ? 0x41u : 0x40u), ctx << ": DDS pixel flags " << u(80) << ", bits " << u(88));
		uint32_t mask[4] {u(92), u(96), u(100), u(104)};
		if (!alpha) mask[3] = 0;
		uint32_t all = mask[0] | mask[1] | mask[2] | mask[3];
		CHECK("dds-masks", uint64_t(mask[0]) + mask[1] + mask[2] + mask[3] == all && all == uint32_t((uint64_t(1) << bpp) - 1), ctx << ": DDS channel masks overlap or leave bits out");
		std::vector<uint8_t> rgba;
		if (t.format() == F::A1R5G5B5) {
			CHECK("dds-masks", mask[0] == 0x7C00 && mask[1] == 0x3E0 && mask[2] == 0x1F, ctx << ": DDS channel masks of a1r5g5b5");
		} else {
			rgba = t.as_rgba8(0);
		}
		for (size_t i = 0; i < rgba.size() / 4; ++i) {
			uint32_t px = 0;
			for (uint32_t b = 0; b < bpp / 8; ++b) px |= uint32_t(t.data(0)[i * (bpp / 8) + b]) << (8 * b);
			for (int ch = 0; ch < 4; ++ch) {
				uint32_t m = mask[ch], v = px & m, want = rgba[i * 4 + ch];
				while (m && !(m & 1)) m >>= 1, v >>= 1;
				uint32_t got = m ? v * 255 / m : 255;
				CHECK("dds-masks", got + 1 >= want && got <= want + 1, ctx << ": channel " << ch << " of pixel " << i << " is " << got << " by the DDS masks, " << want << " by as_rgba8");
			}
		}
	}
	size_t o = 128;
	if (t.format() == F::P8) {
		for (int i = 0; i < 256; ++i) {
			auto& p = t.palette()[i];
			CHECK("dds-palette", u(o + i * 4) == (uint32_t(p.b) | p.g << 8 | p.r << 16 | uint32_t(p.a) << 24), ctx << ": DDS palette entry " << i);
		}
		o += 1024;
	}
	for (uint32_t l = 0; l < t.mipmaps(); ++l) {
		auto& m = t.data(l);
		CHECK("dds-data", o + m.size() <= d.size() && memcmp(d.data() + o, m.data(), m.size()) == 0, ctx << ": DDS data of level " << l << " differs");
		o += m.size();
	}
	CHECK("dds-data", o == d.size(), ctx << ": DDS has " << d.size() - o << " surplus bytes");
}
static void load(pbt::Case& k) {
	auto& s = k.src;
	auto m = tex::gen(s, 48, 8);
	auto ctx = what(m);
	k.log << ctx << "\n";
	k.tag(tex::name(m.fmt));
	if (m.w > 1 && m.h > 1 && m.levels.size() > 1) k.nontrivial();
	Out o;
	tex::encode(o, m);
	size_t end = o.size();
	o.u32(0x12345678); // what follows is not part of the texture
	Exact e {o.bytes()};
	auto r = e.open();
	Texture t;
	if (s.chance(1, 5)) { // a used object can be loaded again
		Exact first {o.bytes()};
		t.load(first.open().get());
	}
	t.load(r.get());
	CHECK("extent", r->tell() == end, ctx << ": loading consumed " << r->tell() << " of " << end << " bytes");
	geometry(t, m, ctx);
	if (m.fmt == F::P8)
		for (int i = 0; i < 256; ++i) {
			auto& p = t.palette()[i];
			CHECK("palette", p.b == m.pal[i][0] && p.g == m.pal[i][1] && p.r == m.pal[i][2] && p.a == m.pal[i][3], ctx << ": palette entry " << i);
		}
	for (uint32_t l = 0; l < m.levels.size(); ++l) {
		CHECK("data", t.data(l) == m.levels[l], ctx << ": data of level " << l << " differs");
		if (tex::readable(m.fmt)) {
			int sl = tex::decode_slack(m.fmt);
			pixels(t, l, tex::rgba(m.fmt, m.pal, m.levels[l], tex::dim(m.w, l), tex::dim(m.h, l)), {sl, sl, sl, sl}, ctx, "rgba");
		} else {
			try {
				(void) t.as_rgba8(l);
				pbt::fail("rgba-unsupported", ctx + ": converted although the format is not supported");
			} catch (zenkit::Error const&) {}
		}
	}
	auto again = save(t);
	CHECK("save", again.size() == end && memcmp(again.data(), e.p.get(), end) == 0, ctx << ": saving does not reproduce the file (" << again.size() << " of " << end << " bytes)");
	dds(t, ctx);
}
static void build(pbt::Case& k) {
	auto& s = k.src;
	F dst = static_cast<F>(s.below(15));
	if (!tex::buildable(dst) && s.chance(3, 4)) dst = F::R8G8B8A8;
	auto first = tex::gen(s, 40, 1);
	unsigned n = 1 + s.below(6);
	TextureBuilder b(first.w, first.h);
	struct Level { F f; std::vector<uint8_t> d; };
	std::vector<Level> lv;
	bool ok = dst != F::P8;
	std::string ctx = std::to_string(first.w) + "x" + std::to_string(first.h) + " into " + tex::name(dst) + " from";
	for (unsigned l = 0; l < n; ++l) {
		F f = s.chance(1, 4) ? dst : static_cast<F>(s.below(15));
		if ((f == F::P8 || !tex::readable(f)) && s.chance(7, 8)) f = F::R8G8B8A8;
		if (s.chance(1, 2)) f = s.pick({F::R8G8B8A8, F::R8G8B8});
		tex::Model m;
		uint32_t w = tex::dim(first.w, l), h = tex::dim(first.h, l);
		std::vector<uint8_t> d(tex::size(f, w, h));
		uint32_t x = s.u32() | 1;
		// lossy targets are only required to keep plain areas
		bool plain = int(dst) >= int(F::DXT1) && f != dst;
		if (plain && f != F::R8G8B8A8) { f = F::R8G8B8A8; d.resize(tex::size(f, w, h)); }
		if (plain) {
			uint8_t c[4] {s.u8(), s.u8(), s.u8(), dst == F::DXT1 ? uint8_t(255) : s.u8()};
			for (size_t i = 0; i < d.size(); ++i) d[i] = c[i % 4];
		} else {
			for (auto& v : d) { x = x * 1664525u + 1013904223u; v = static_cast<uint8_t>(x >> 24); }
		}
		ctx += std::string(" ") + tex::name(f);
		if (s.chance(1, 8)) { // wrong sizes are refused and leave the builder as it was
			auto bad = d;
			if (s.flip() && !bad.empty()) bad.pop_back();
			else bad.push_back(0);
			try {
				b.add_mipmap(bad, f);
				pbt::fail("wrong-size", ctx + ": a level of the wrong size was accepted");
			} catch (InvalidMipmapSize const&) {}
		}
		b.add_mipmap(d, f);
		lv.push_back({f, d});
		if (f != dst && (!tex::readable(f) || f == F::P8 || !tex::buildable(dst))) ok = false;
	}
	k.log << ctx << "\n";
	k.tag(tex::name(dst));
	Texture t;
	try {
		t = b.build(dst);
	} catch (zenkit::Error const& e) {
		CHECK("build-refused", !ok, ctx << ": refused: " << e.what());
		return;
	}
	CHECK("build-accepted", ok, ctx << ": built although a format is not supported");
	if (n > 1 && first.w > 1 && first.h > 1) k.nontrivial();
	tex::Model m;
	m.fmt = dst, m.w = first.w, m.h = first.h, m.ref_w = first.w, m.ref_h = first.h, m.levels.resize(n), m.avg = t.average_color();
	geometry(t, m, ctx);
	auto compare = [&](Texture const& t, std::string const& ctx) {
		for (unsigned l = 0; l < n; ++l) {
			auto& [f, d] = lv[l];
			if (f == dst) {
				CHECK("same-format", t.data(l) == d, ctx << ": level " << l << " changed although its format did not");
				continue;
			}
			auto want = tex::rgba(f, m.pal, d, tex::dim(m.w, l), tex::dim(m.h, l));
			bool alpha = dst != F::B8G8R8 && dst != F::R8G8B8 && dst != F::R5G6B5;
			if (!alpha) for (auto& p : want) p.c[3] = 255;
			int sl = tex::decode_slack(f), a = 0;
			if (dst == F::R5G6B5) sl += 9;
			if (dst == F::DXT1 || dst == F::DXT3 || dst == F::DXT5) sl += 9;
			if (dst == F::DXT3) a = 9;
			if (dst == F::DXT5) a = 2;
			pixels(t, l, want, {sl, dst == F::R5G6B5 ? sl - 4 : sl, sl, a + (alpha ? tex::decode_slack(f) : 0)}, ctx, "built-pixels");
		}
	};
	compare(t, ctx);
	dds(t, ctx);
	Exact e {save(t)};
	Texture back;
	auto r = e.open();
	back.load(r.get());
	CHECK("build-extent", r->tell() == e.n, ctx << ": saved " << e.n << " bytes, loading consumed " << r->tell());
	geometry(back, m, ctx + " saved");
	compare(back, ctx + " saved");
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C19", "load: more than one pixel in both directions and more than one level; build: built, likewise",
	    {"dimensions up to 64, up to 8 levels", "building into DXT formats is judged on plain areas only (the encoder is libsquish)"},
	    {{"load", 250000, 15, load}, {"build", 250000, 15, build}}};
	return pbt::main(argc, argv, cfg);
}
