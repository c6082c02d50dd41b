// Textures: generator, independent encoder and reference pixel decoder.
#pragma once
#include "common.hh"
#include <zenkit/Texture.hh>

namespace tex {
	using F = zenkit::TextureFormat;
	struct Model {
		F fmt {F::R8G8B8A8};
		uint32_t w {1}, h {1}, ref_w {1}, ref_h {1}, avg {0};
		uint8_t pal[256][4] {}; // b g r a
		std::vector<std::vector<uint8_t>> levels; // largest first
	};
	inline char const* name(F f) {
		static char const* const n[] {"B8G8R8A8", "R8G8B8A8", "A8B8G8R8", "A8R8G8B8", "B8G8R8", "R8G8B8", "A4R4G4B4", "A1R5G5B5", "R5G6B5", "P8", "DXT1", "DXT2", "DXT3", "DXT4", "DXT5"};
		return n[static_cast<unsigned>(f) % 15];
	}
	inline uint32_t dim(uint32_t d, uint32_t level) { return std::max(1u, level >= 32 ? 0 : d >> level); }
	inline size_t size(F f, uint32_t w, uint32_t h) {
		auto blocks = size_t((w + 3) / 4) * ((h + 3) / 4);
		switch (f) {
		case F::B8G8R8A8: case F::R8G8B8A8: case F::A8B8G8R8: case F::A8R8G8B8: return size_t(w) * h * 4;
		case F::B8G8R8: case F::R8G8B8: return size_t(w) * h * 3;
		case F::A4R4G4B4: case F::A1R5G5B5: case F::R5G6B5: return size_t(w) * h * 2;
		case F::P8: return size_t(w) * h;
		case F::DXT1: return blocks * 8;
		default: return blocks * 16;
		}
	}
	inline bool readable(F f) { return f != F::A1R5G5B5 && f != F::DXT2 && f != F::DXT4; }
	inline bool buildable(F f) { return readable(f) && f != F::P8 && f != F::A4R4G4B4; }

	inline Model gen(pbt::Src& s, unsigned max_dim, unsigned max_levels, int fmt = -1) {
		Model m;
		m.fmt = static_cast<F>(fmt >= 0 ? fmt : s.below(15));
		auto d = [&] { return s.chance(2, 3) ? std::min(max_dim, 1u << s.below(7)) : static_cast<uint32_t>(1 + s.below(max_dim)); };
		m.w = d(), m.h = d();
		m.ref_w = s.chance(3, 4) ? m.w : s.u32(), m.ref_h = s.chance(3, 4) ? m.h : s.u32();
		m.avg = s.u32();
		if (m.fmt == F::P8) {
			unsigned used = s.pick({4u, 16u, 256u});
			for (unsigned i = 0; i < used; ++i) for (auto& c : m.pal[i]) c = s.u8();
		}
		unsigned n = 1 + s.below(max_levels);
		for (unsigned l = 0; l < n; ++l) {
			std::vector<uint8_t> d(size(m.fmt, dim(m.w, l), dim(m.h, l)));
			// a seed per level keeps the choice sequence short
			uint32_t x = s.u32() | 1;
			bool flat = s.chance(1, 4);
			for (auto& b : d) { x = x * 1664525u + 1013904223u; b = flat ? static_cast<uint8_t>(d.size()) : static_cast<uint8_t>(x >> 24); }
			for (unsigned i = 0, e = s.below(4); i < e && !d.empty(); ++i) d[s.below(d.size())] = s.pick<uint8_t>({0, 255, 128, 1, 127});
			m.levels.push_back(std::move(d));
		}
		return m;
	}
	inline void encode(Out& o, Model const& m) {
		o.str("ZTEX").u32(0).u32(static_cast<uint32_t>(m.fmt)).u32(m.w).u32(m.h).u32(m.levels.size()).u32(m.ref_w).u32(m.ref_h).u32(m.avg);
		if (m.fmt == F::P8) for (auto& p : m.pal) o.raw(p, 4);
		for (size_t l = m.levels.size(); l-- > 0;) o.raw(m.levels[l].data(), m.levels[l].size());
	}
	struct Px { int c[4]; };
	inline void expand565(unsigned v, int* c) {
		c[0] = (v >> 11) << 3 | (v >> 11) >> 2;
		c[1] = (v >> 5 & 63) << 2 | (v >> 5 & 63) >> 4;
		c[2] = (v & 31) << 3 | (v & 31) >> 2;
	}
	// One level as RGBA; written from the format descriptions only.
	inline std::vector<Px> rgba(F f, uint8_t const (*pal)[4], std::vector<uint8_t> const& d, uint32_t w, uint32_t h) {
		std::vector<Px> out(size_t(w) * h);
		auto at = [&](size_t i) { return int(d.at(i)); };
		if (f == F::DXT1 || f == F::DXT3 || f == F::DXT5) {
			size_t bs = f == F::DXT1 ? 8 : 16, bw = (w + 3) / 4;
			for (uint32_t y = 0; y < h; ++y)
				for (uint32_t x = 0; x < w; ++x) {
					size_t o = (y / 4 * bw + x / 4) * bs, i = (y % 4) * 4 + x % 4, co = o + (bs - 8);
					unsigned c0 = at(co) | at(co + 1) << 8, c1 = at(co + 2) | at(co + 3) << 8;
					int a[3], b[3];
					expand565(c0, a), expand565(c1, b);
					unsigned sel = at(co + 4 + i / 4) >> (i % 4 * 2) & 3;
					Px p {{0, 0, 0, 255}};
					bool four = f != F::DXT1 || c0 > c1;
					for (int k = 0; k < 3; ++k)
						p.c[k] = sel == 0 ? a[k] : sel == 1 ? b[k] : four ? (sel == 2 ? (2 * a[k] + b[k]) / 3 : (a[k] + 2 * b[k]) / 3) : sel == 2 ? (a[k] + b[k]) / 2 : 0;
					if (!four && sel == 3) p.c[3] = 0;
					if (f == F::DXT3) p.c[3] = (at(o + i / 2) >> (i % 2 * 4) & 15) * 17;
					if (f == F::DXT5) {
						int a0 = at(o), a1 = at(o + 1);
						uint64_t bits = 0;
						for (int k = 0; k < 6; ++k) bits |= uint64_t(at(o + 2 + k)) << (8 * k);
						unsigned q = bits >> (3 * i) & 7;
						if (q == 0) p.c[3] = a0;
						else if (q == 1) p.c[3] = a1;
						else if (a0 > a1) p.c[3] = ((8 - int(q)) * a0 + (int(q) - 1) * a1) / 7;
						else if (q < 6) p.c[3] = ((6 - int(q)) * a0 + (int(q) - 1) * a1) / 5;
						else p.c[3] = q == 6 ? 0 : 255;
					}
					out[size_t(y) * w + x] = p;
				}
			return out;
		}
		for (size_t i = 0; i < out.size(); ++i) {
			auto& c = out[i].c;
			auto set = [&](int r, int g, int b, int a) { c[0] = r, c[1] = g, c[2] = b, c[3] = a; };
			switch (f) {
			case F::B8G8R8A8: set(at(i * 4 + 2), at(i * 4 + 1), at(i * 4), at(i * 4 + 3)); break;
			case F::R8G8B8A8: set(at(i * 4), at(i * 4 + 1), at(i * 4 + 2), at(i * 4 + 3)); break;
			case F::A8B8G8R8: set(at(i * 4 + 3), at(i * 4 + 2), at(i * 4 + 1), at(i * 4)); break;
			case F::A8R8G8B8: set(at(i * 4 + 1), at(i * 4 + 2), at(i * 4 + 3), at(i * 4)); break;
			case F::B8G8R8: set(at(i * 3 + 2), at(i * 3 + 1), at(i * 3), 255); break;
			case F::R8G8B8: set(at(i * 3), at(i * 3 + 1), at(i * 3 + 2), 255); break;
			case F::A4R4G4B4: { int v = at(i * 2) | at(i * 2 + 1) << 8; set((v >> 8 & 15) * 17, (v >> 4 & 15) * 17, (v & 15) * 17, (v >> 12) * 17); break; }
			case F::R5G6B5: { int v = at(i * 2) | at(i * 2 + 1) << 8; set((v >> 11) * 255 / 31, (v >> 5 & 63) * 255 / 63, (v & 31) * 255 / 31, 255); break; }
			case F::P8: { auto& p = pal[at(i)]; set(p[2], p[1], p[0], p[3]); break; }
			default: break;
			}
		}
		return out;
	}
	inline int decode_slack(F f) { return f == F::R5G6B5 ? 1 : f == F::DXT1 || f == F::DXT3 || f == F::DXT5 ? 2 : 0; }
}
