// World meshes and BSP trees: generators, independent encoder, comparison.
#pragma once
#include "fields.hh"
#include "tex.hh"
#include <zenkit/Mesh.hh>
#include <zenkit/world/BspTree.hh>

namespace msh {
	using namespace zenkit;
	inline std::string line(pbt::Src& s, size_t max = 20) { // text that fits on one line
		auto t = s.str(max);
		for (auto& c : t) if (c == '\n' || c == '\r' || c == '\0') c = '_';
		return t;
	}
	inline Vec3 vec(pbt::Src& s) { return {s.finite(), s.finite(), s.finite()}; }
	inline bool eq(float a, float b) { return fbits(a) == fbits(b); }
	inline bool eq(Vec2 a, Vec2 b) { return eq(a.x, b.x) && eq(a.y, b.y); }
	inline bool eq(Vec3 a, Vec3 b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z); }
	inline bool eq(Vec4 a, Vec4 b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z) && eq(a.w, b.w); }
	inline bool eq(AxisAlignedBoundingBox const& a, AxisAlignedBoundingBox const& b) { return eq(a.min, b.min) && eq(a.max, b.max); }
	inline bool eq(Date const& a, Date const& b) { return a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.second == b.second; }
	inline bool eq(OrientedBoundingBox const& a, OrientedBoundingBox const& b) {
		if (!eq(a.center, b.center) || !eq(a.half_width, b.half_width) || a.children.size() != b.children.size()) return false;
		for (int i = 0; i < 3; ++i) if (!eq(a.axes[i], b.axes[i])) return false;
		for (size_t i = 0; i < a.children.size(); ++i) if (!eq(a.children[i], b.children[i])) return false;
		return true;
	}
	inline Date date(pbt::Src& s) {
		Date d;
		d.year = s.u32(), d.month = s.u16(), d.day = s.u16(), d.hour = s.u16(), d.minute = s.u16(), d.second = s.u16();
		return d;
	}
	inline AxisAlignedBoundingBox aabb(pbt::Src& s) { return {vec(s), vec(s)}; }
	inline OrientedBoundingBox obb(pbt::Src& s, unsigned depth = 2) {
		OrientedBoundingBox o;
		o.center = vec(s), o.half_width = vec(s);
		for (auto& a : o.axes) a = vec(s);
		if (depth) for (size_t i = 0, n = s.chance(1, 3) ? s.below(3) : 0; i < n; ++i) o.children.push_back(obb(s, depth - 1));
		return o;
	}
	inline void enc(Out& o, Vec3 const& v) { o.f32(v.x).f32(v.y).f32(v.z); }
	inline void enc(Out& o, AxisAlignedBoundingBox const& v) { enc(o, v.min), enc(o, v.max); }
	inline void enc(Out& o, Date const& d) { o.u32(d.year).u16(d.month).u16(d.day).u16(d.hour).u16(d.minute).u16(d.second).u16(0); }
	inline void enc(Out& o, OrientedBoundingBox const& v) {
		enc(o, v.center);
		for (auto& a : v.axes) enc(o, a);
		enc(o, v.half_width);
		o.u16(v.children.size());
		for (auto& c : v.children) enc(o, c);
	}
	inline fld::Ctx material_ctx(GameVersion g) { fld::Ctx c; c.g = g, c.save = false, c.fmt = ArchiveFormat::BINARY; return c; }
	inline Material material(pbt::Src& s, GameVersion g) {
		fld::Gen gen {s, material_ctx(g)};
		return *std::static_pointer_cast<Material>(gen.build(ObjectType::zCMaterial));
	}
	inline arch::Items dump(Material& m, GameVersion g) {
		fld::Dump d {material_ctx(g)};
		d.put("%", &m);
		return d.out;
	}
	/// The archive with the materials as it is embedded into meshes: header, [raw count], (name, object)*
	inline Bytes enc_materials(std::vector<Material>& v, GameVersion g, bool count) {
		arch::Items items;
		uint32_t n = 0;
		for (auto& m : v) {
			arch::Item name;
			name.k = arch::STR, name.s = m.name;
			items.push_back(name);
			auto d = dump(m, g);
			d[0].index = n++;
			items.push_back(d[0]);
		}
		auto b = arch::encode(ArchiveFormat::BINARY, false, items, n);
		if (count) {
			auto head = arch::encode(ArchiveFormat::BINARY, false, {}, n).size();
			Out o;
			o.u32(v.size());
			auto c = o.bytes();
			b.insert(b.begin() + static_cast<long>(head), c.begin(), c.end());
		}
		return b;
	}
	inline void same_material(Material& a, Material& b, GameVersion g, std::string const& where, char const* key) {
		fld::same(dump(a, g), dump(b, g), false, where, key);
	}
	/// Adds lightmap textures; returned models are parallel to the distinct images.
	inline std::shared_ptr<Texture> texture(pbt::Src& s) {
		auto m = tex::gen(s, 8, 2);
		Out o;
		tex::encode(o, m);
		Exact e {o.bytes()};
		auto t = std::make_shared<Texture>();
		auto r = e.open();
		t->load(r.get());
		return t;
	}
	inline Bytes tex_bytes(Texture const& t) {
		Bytes b;
		auto w = Write::to(&b);
		t.save(w.get());
		return b;
	}
	inline Mesh mesh(pbt::Src& s, GameVersion g, bool wide, unsigned max = 12) {
		Mesh m;
		bool g2 = g == GameVersion::GOTHIC_2;
		m.date = date(s), m.name = line(s), m.bbox = aabb(s), m.obb = obb(s);
		m.materials.resize(s.len(3));
		for (auto& x : m.materials) x = material(s, g);
		m.vertices.resize(s.len(max));
		for (auto& v : m.vertices) v = vec(s);
		m.features.resize(s.len(max));
		for (auto& f : m.features) f.texture = {s.finite(), s.finite()}, f.light = s.u32(), f.normal = vec(s);
		std::vector<std::shared_ptr<Texture>> images(s.len(3));
		for (auto& i : images) i = texture(s);
		if (!images.empty()) {
			m.lightmaps.resize(s.len(4));
			for (auto& l : m.lightmaps) l.image = images[s.below(images.size())], l.origin = vec(s), l.normals[0] = vec(s), l.normals[1] = vec(s);
		}
		m.geometry.resize(s.len(max));
		for (auto& p : m.geometry) {
			p.material = s.chance(1, 2) ? s.below(m.materials.size() + 1) : s.u16();
			p.lightmap = s.chance(1, 2) ? -1 : s.i16();
			p.plane_distance = s.finite(), p.plane_normal = vec(s);
			p.flags = {};
			bool seen = s.chance(2, 3); // visible ones are more interesting
			p.flags.is_portal = seen ? 0 : s.below(4), p.flags.is_occluder = s.flip(), p.flags.is_sector = s.flip();
			p.flags.is_outdoor = !seen && s.flip(), p.flags.is_ghost_occluder = !seen && s.flip();
			if (g2) p.flags.should_relight = s.flip(), p.flags.is_dynamically_lit = s.flip();
			else p.flags.is_lod = s.flip(), p.flags.normal_axis = s.below(4);
			p.flags.sector_index = s.i16();
			p.index_offset = m.polygon_vertex_indices.size();
			p.index_count = s.chance(1, 30) ? s.below(256) : s.below(7);
			for (size_t i = 0; i < p.index_count; ++i) {
				uint32_t v = s.chance(4, 5) ? s.below(m.vertices.size() + 1) : s.u32();
				m.polygon_vertex_indices.push_back(wide ? v : v & 0xFFFF);
				m.polygon_feature_indices.push_back(s.chance(4, 5) ? s.below(m.features.size() + 1) : s.u32());
			}
		}
		return m;
	}
	inline void triangulate(Mesh& m, std::vector<uint32_t> const& leaf) {
		m.polygons = {};
		for (uint32_t i = 0; i < m.geometry.size(); ++i) {
			if (std::find(leaf.begin(), leaf.end(), i) == leaf.end()) continue;
			auto& p = m.geometry[i];
			if (p.flags.is_portal || p.flags.is_ghost_occluder || p.flags.is_outdoor) continue;
			for (size_t t = 2; t < p.index_count; ++t) {
				for (size_t c : {size_t(0), t - 1, t}) {
					m.polygons.vertex_indices.push_back(m.polygon_vertex_indices[p.index_offset + c]);
					m.polygons.feature_indices.push_back(m.polygon_feature_indices[p.index_offset + c]);
				}
				m.polygons.material_indices.push_back(p.material);
				m.polygons.lightmap_indices.push_back(p.lightmap);
				m.polygons.flags.push_back(p.flags);
			}
		}
	}
	struct Noise { // unknown chunks and surplus bytes
		pbt::Src* s {nullptr};
		static inline size_t chunks {0}, surplus {0};
		unsigned unknown() {
			static unsigned const near[] {0, 1, 0xB0F0, 0xD0F0, 0xE0F0, 0xC0F0, 0xA0F0, 0xF5E0, 0xB101};
			switch (s->below(3)) {
			case 0: return 0x7000 + s->below(0x800);
			case 1: return near[s->below(std::size(near))];
			default: { auto t = s->u16(); return t >= 0xA000 ? t & 0x7FFF : t; }
			}
		}
		void stray(Out& o) {
			if (!s || !s->chance(1, 4)) return;
			Out junk;
			auto b = s->bytes(12);
			junk.raw(b.data(), b.size());
			o.chunk(unknown(), junk), ++chunks;
		}
		void chunk(Out& o, unsigned type, Out body, bool fixed = true) {
			stray(o);
			if (s && fixed && s->chance(1, 4)) {
				auto b = s->bytes(9);
				if (!b.empty()) ++surplus;
				body.raw(b.data(), b.size());
			}
			o.chunk(type, body);
		}
	};
	/// What is saved consists of the documented chunks. The contents of `loose` ones (archives with a date, lists whose order
	/// is free) are compared in their leading `head` bytes only; they are read back elsewhere.
	inline void layout(Bytes const& got, Bytes const& want, std::map<unsigned, size_t> const& loose, std::string const& w, std::string const& key) {
		auto cut = [&](Bytes const& b, char const* which) {
			std::vector<std::pair<unsigned, Bytes>> out;
			for (size_t at = 0; at < b.size();) {
				CHECK(key + "-layout", at + 6 <= b.size(), w << ": " << which << " ends within a chunk header");
				auto u = [&](size_t i) { return static_cast<uint32_t>(b[at + i]); };
				unsigned id = u(0) | u(1) << 8;
				size_t len = u(2) | u(3) << 8 | u(4) << 16 | u(5) << 24;
				CHECK(key + "-layout", len <= b.size() - at - 6, w << ": chunk " << std::hex << id << " of " << which << " is longer than the file");
				out.emplace_back(id, Bytes(b.begin() + at + 6, b.begin() + at + 6 + len));
				at += 6 + len;
			}
			return out;
		};
		auto a = cut(got, "what was saved"), b = cut(want, "the expected file");
		for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
			CHECK(key + "-layout", i < a.size() && i < b.size() && a[i].first == b[i].first, w << ": chunk " << i << " is " << std::hex
			      << (i < a.size() ? a[i].first : 0) << ", expected " << (i < b.size() ? b[i].first : 0));
			auto l = loose.find(a[i].first);
			if (l != loose.end())
				for (auto* x : {&a[i].second, &b[i].second}) x->resize(std::min(x->size(), l->second));
			CHECK(key + "-layout", a[i].second == b[i].second, w << ": contents of chunk " << std::hex << a[i].first << " are not as documented");
		}
	}
	/// lightmaps: 0 = shared, 1 = one texture each
	inline void encode(Out& o, Mesh& m, GameVersion g, bool wide, bool single, Noise n = {}) {
		bool g2 = g == GameVersion::GOTHIC_2;
		{ Out c; c.u16(g2 ? 265 : 9); enc(c, m.date); c.line(m.name); n.chunk(o, 0xB000, c); }
		{ Out c; enc(c, m.bbox), enc(c, m.obb); n.chunk(o, 0xB010, c); }
		{ Out c; auto b = enc_materials(m.materials, g, true); c.raw(b.data(), b.size()); n.chunk(o, 0xB020, c); }
		if (single) {
			Out c;
			c.u32(m.lightmaps.size());
			for (auto& l : m.lightmaps) {
				enc(c, l.origin), enc(c, l.normals[0]), enc(c, l.normals[1]);
				auto b = tex_bytes(*l.image);
				c.raw(b.data(), b.size());
			}
			n.chunk(o, 0xB025, c);
		} else {
			Out c;
			std::vector<Texture*> t;
			for (auto& l : m.lightmaps) if (std::find(t.begin(), t.end(), l.image.get()) == t.end()) t.push_back(l.image.get());
			c.u32(t.size());
			for (auto* x : t) { auto b = tex_bytes(*x); c.raw(b.data(), b.size()); }
			c.u32(m.lightmaps.size());
			for (auto& l : m.lightmaps) {
				enc(c, l.origin), enc(c, l.normals[0]), enc(c, l.normals[1]);
				c.u32(std::find(t.begin(), t.end(), l.image.get()) - t.begin());
			}
			n.chunk(o, 0xB026, c);
		}
		{ Out c; c.u32(m.vertices.size()); for (auto& v : m.vertices) enc(c, v); n.chunk(o, 0xB030, c); }
		{ Out c; c.u32(m.features.size()); for (auto& f : m.features) { c.f32(f.texture.x).f32(f.texture.y).u32(f.light); enc(c, f.normal); } n.chunk(o, 0xB040, c); }
		{
			Out c;
			c.u32(m.geometry.size());
			for (auto& p : m.geometry) {
				c.u16(p.material).u16(static_cast<uint16_t>(p.lightmap)).f32(p.plane_distance);
				enc(c, p.plane_normal);
				auto& f = p.flags;
				unsigned a = f.is_portal | f.is_occluder << 2 | f.is_sector << 3 | (g2 ? f.should_relight : f.is_lod) << 4 | f.is_outdoor << 5 | f.is_ghost_occluder << 6;
				if (g2) c.u8(a | f.is_dynamically_lit << 7);
				else c.u8(a | (f.normal_axis & 1) << 7).u8(f.normal_axis >> 1);
				c.u16(static_cast<uint16_t>(f.sector_index)).u8(p.index_count);
				for (size_t i = 0; i < p.index_count; ++i) {
					auto v = m.polygon_vertex_indices[p.index_offset + i];
					if (g2 || wide) c.u32(v);
					else c.u16(v);
					c.u32(m.polygon_feature_indices[p.index_offset + i]);
				}
			}
			n.chunk(o, 0xB050, c);
		}
		n.chunk(o, 0xB060, {});
	}
	/// shared: which lightmaps use the same image is part of what is compared
	inline void same(Mesh& a, Mesh& b, GameVersion g, bool shared, std::string const& w, std::string const& key) {
		auto k = [&](char const* x) { return key + "-" + x; };
#define MSH_EQ(what, cond) do { if (!(cond)) pbt::fail(k(what), w + ": " what " differs"); } while (0)
		MSH_EQ("date", eq(a.date, b.date));
		MSH_EQ("name", a.name == b.name);
		MSH_EQ("bbox", eq(a.bbox, b.bbox));
		MSH_EQ("obb", eq(a.obb, b.obb));
		MSH_EQ("material-count", a.materials.size() == b.materials.size());
		for (size_t i = 0; i < a.materials.size(); ++i) same_material(a.materials[i], b.materials[i], g, w, k("material").c_str());
		MSH_EQ("vertex-count", a.vertices.size() == b.vertices.size());
		for (size_t i = 0; i < a.vertices.size(); ++i) MSH_EQ("vertex", eq(a.vertices[i], b.vertices[i]));
		MSH_EQ("feature-count", a.features.size() == b.features.size());
		for (size_t i = 0; i < a.features.size(); ++i)
			MSH_EQ("feature", eq(a.features[i].texture, b.features[i].texture) && a.features[i].light == b.features[i].light && eq(a.features[i].normal, b.features[i].normal));
		MSH_EQ("lightmap-count", a.lightmaps.size() == b.lightmaps.size());
		for (size_t i = 0; i < a.lightmaps.size(); ++i) {
			auto &x = a.lightmaps[i], &y = b.lightmaps[i];
			MSH_EQ("lightmap", eq(x.origin, y.origin) && eq(x.normals[0], y.normals[0]) && eq(x.normals[1], y.normals[1]));
			MSH_EQ("lightmap-image", y.image != nullptr && tex_bytes(*x.image) == tex_bytes(*y.image));
			for (size_t j = 0; shared && j < i; ++j)
				MSH_EQ("lightmap-sharing", (x.image == a.lightmaps[j].image) == (y.image == b.lightmaps[j].image));
		}
		MSH_EQ("polygon-count", a.geometry.size() == b.geometry.size());
		for (size_t i = 0; i < a.geometry.size(); ++i) {
			auto &x = a.geometry[i], &y = b.geometry[i];
			MSH_EQ("polygon-plane", eq(x.plane_distance, y.plane_distance) && eq(x.plane_normal, y.plane_normal));
			MSH_EQ("polygon-material", x.material == y.material);
			MSH_EQ("polygon-lightmap", x.lightmap == y.lightmap);
			bool g2 = g == GameVersion::GOTHIC_2;
			auto fx = x.flags, fy = y.flags;
			if (g2) fx.is_lod = fy.is_lod = fx.normal_axis = fy.normal_axis = 0;
			else fx.should_relight = fy.should_relight = fx.is_dynamically_lit = fy.is_dynamically_lit = 0;
			MSH_EQ("polygon-flags", fx == fy);
			MSH_EQ("polygon-indices-count", x.index_count == y.index_count && y.index_offset + y.index_count <= b.polygon_vertex_indices.size() && y.index_offset + y.index_count <= b.polygon_feature_indices.size());
			for (size_t j = 0; j < x.index_count; ++j)
				MSH_EQ("polygon-indices", a.polygon_vertex_indices[x.index_offset + j] == b.polygon_vertex_indices[y.index_offset + j] && a.polygon_feature_indices[x.index_offset + j] == b.polygon_feature_indices[y.index_offset + j]);
		}
		MSH_EQ("triangles", a.polygons.vertex_indices == b.polygons.vertex_indices);
		MSH_EQ("triangle-features", a.polygons.feature_indices == b.polygons.feature_indices);
		MSH_EQ("triangle-materials", a.polygons.material_indices == b.polygons.material_indices);
		MSH_EQ("triangle-lightmaps", a.polygons.lightmap_indices == b.polygons.lightmap_indices);
		MSH_EQ("triangle-flags-count", a.polygons.flags.size() == b.polygons.flags.size());
		for (size_t i = 0; i < a.polygons.flags.size(); ++i) {
			auto fx = a.polygons.flags[i], fy = b.polygons.flags[i];
			if (g == GameVersion::GOTHIC_2) fx.is_lod = fy.is_lod = fx.normal_axis = fy.normal_axis = 0;
			else fx.should_relight = fy.should_relight = fx.is_dynamically_lit = fy.is_dynamically_lit = 0;
			MSH_EQ("triangle-flags", fx == fy);
		}
#undef MSH_EQ
	}
	inline std::vector<uint32_t> leaves(pbt::Src& s, Mesh const& m) {
		std::vector<uint32_t> l;
		for (uint32_t i = 0; i < m.geometry.size(); ++i)
			for (unsigned n = s.chance(2, 3) ? 1 + s.chance(1, 5) : 0; n > 0; --n) l.push_back(i); // a polygon can be in several leaves
		return l;
	}
}
