// Model assets (hierarchies, multi-resolution meshes, soft skins, model meshes, fonts, animations, morph meshes):
// generators, an encoder of their documented layouts that does not use the library, and comparisons.
#pragma once
#include "meshgen.hh"
#include <zenkit/Font.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/SoftSkinMesh.hh>

namespace mdl {
	using namespace zenkit;
	using msh::eq, msh::enc, msh::Noise;
#define MDL_EQ(what, cond) do { if (!(cond)) pbt::fail(key + "-" what, w + ": " what " differs"); } while (0)
#define MDL_ALL(what, A, B, cond) do { \
		MDL_EQ(what "-count", (A).size() == (B).size()); \
		for (size_t i_ = 0; i_ < (A).size(); ++i_) { auto &x = (A)[i_], &y = (B)[i_]; MDL_EQ(what, cond); } \
	} while (0)

	// ---- hierarchies
	inline ModelHierarchy hierarchy(pbt::Src& s) {
		ModelHierarchy h;
		h.nodes.resize(s.len(6));
		for (auto& n : h.nodes) {
			n.name = msh::line(s), n.parent_index = s.chance(1, 4) ? s.i16() : static_cast<int16_t>(s.below(h.nodes.size() + 1)) - 1;
			for (auto& c : n.transform.columns) c = {s.finite(), s.finite(), s.finite(), s.finite()};
		}
		h.bbox = msh::aabb(s), h.collision_bbox = msh::aabb(s), h.root_translation = msh::vec(s), h.checksum = s.u32();
		h.source_date = msh::date(s), h.source_path = msh::line(s);
		return h;
	}
	inline void encode(Out& o, ModelHierarchy& h, Noise n = {}) {
		auto head = [&] {
			Out c;
			c.u32(3).u16(h.nodes.size());
			for (auto& x : h.nodes) {
				c.line(x.name).u16(static_cast<uint16_t>(x.parent_index));
				for (int row = 0; row < 4; ++row) for (auto& col : x.transform.columns) c.f32(row == 0 ? col.x : row == 1 ? col.y : row == 2 ? col.z : col.w);
			}
			enc(c, h.bbox), enc(c, h.collision_bbox), enc(c, h.root_translation), c.u32(h.checksum);
			n.chunk(o, 0xD100, c);
		};
		head();
		{ Out c; enc(c, h.source_date), c.line(h.source_path); n.chunk(o, 0xD110, c); }
		n.chunk(o, 0xD120, {});
	}
	inline void same(ModelHierarchy& a, ModelHierarchy& b, std::string const& w, std::string const& key) {
		MDL_ALL("node", a.nodes, b.nodes, x.name == y.name && x.parent_index == y.parent_index);
		for (int c = 0; c < 4; ++c) MDL_ALL("transform", a.nodes, b.nodes, eq(x.transform.columns[c], y.transform.columns[c]));
		MDL_EQ("bbox", eq(a.bbox, b.bbox));
		MDL_EQ("collision-bbox", eq(a.collision_bbox, b.collision_bbox));
		MDL_EQ("root-translation", eq(a.root_translation, b.root_translation));
		MDL_EQ("checksum", a.checksum == b.checksum);
		MDL_EQ("source-date", eq(a.source_date, b.source_date));
		MDL_EQ("source-path", a.source_path == b.source_path);
	}

	// ---- multi-resolution meshes
	inline SubMesh sub_mesh(pbt::Src& s, GameVersion g, unsigned max) {
		SubMesh m;
		m.mat = msh::material(s, g);
		m.triangles.resize(s.len(max));
		for (auto& t : m.triangles) for (auto& x : t.wedges) x = s.u16();
		m.wedges.resize(s.len(max));
		for (auto& t : m.wedges) t.normal = msh::vec(s), t.texture = {s.finite(), s.finite()}, t.index = s.u16();
		m.colors.resize(s.len(max));
		for (auto& t : m.colors) t = s.finite();
		m.triangle_plane_indices.resize(s.len(max));
		for (auto& t : m.triangle_plane_indices) t = s.u16();
		m.triangle_planes.resize(s.len(max));
		for (auto& t : m.triangle_planes) t.distance = s.finite(), t.normal = msh::vec(s);
		m.triangle_edges.resize(s.len(max));
		for (auto& t : m.triangle_edges) for (auto& x : t.edges) x = s.u16();
		m.edges.resize(s.len(max));
		for (auto& t : m.edges) for (auto& x : t.edges) x = s.u16();
		m.edge_scores.resize(s.len(max));
		for (auto& t : m.edge_scores) t = s.finite();
		m.wedge_map.resize(s.len(max));
		for (auto& t : m.wedge_map) t = s.u16();
		return m;
	}
	inline MultiResolutionMesh mrm(pbt::Src& s, GameVersion g, unsigned max = 6) {
		MultiResolutionMesh m;
		m.positions.resize(s.len(max));
		for (auto& p : m.positions) p = msh::vec(s);
		m.normals.resize(s.len(max));
		for (auto& p : m.normals) p = msh::vec(s);
		for (size_t i = 0, n = s.len(3); i < n; ++i) m.sub_meshes.push_back(sub_mesh(s, g, max)), m.materials.push_back(m.sub_meshes.back().mat);
		if (!m.sub_meshes.empty() && s.chance(1, 400)) // the count is a byte
			while (m.sub_meshes.size() < 255) m.sub_meshes.push_back(m.sub_meshes[m.sub_meshes.size() % 3 % m.sub_meshes.size()]), m.materials.push_back(m.sub_meshes.back().mat);
		if (g == GameVersion::GOTHIC_2) m.alpha_test = s.flip();
		m.bbox = msh::aabb(s), m.obbox = msh::obb(s);
		return m;
	}
	/// The body of an 0xB100 chunk. With `lay`, the data blocks come in any order, with gaps.
	struct Block { Out o; size_t n; size_t at {0}; };
	inline Out section(MultiResolutionMesh& m, GameVersion g, pbt::Src* lay = nullptr, std::vector<Block>* parts = nullptr) {
		std::vector<Block> b;
		auto add = [&](size_t n) -> Out& { b.push_back({{}, n}); return b.back().o; };
		auto& p = add(m.positions.size());
		for (auto& v : m.positions) enc(p, v);
		auto& q = add(m.normals.size());
		for (auto& v : m.normals) enc(q, v);
		for (auto& x : m.sub_meshes) {
			{ auto& o = add(x.triangles.size()); for (auto& t : x.triangles) o.u16(t.wedges[0]).u16(t.wedges[1]).u16(t.wedges[2]); }
			{ auto& o = add(x.wedges.size()); for (auto& t : x.wedges) { enc(o, t.normal); o.f32(t.texture.x).f32(t.texture.y).u16(t.index).u16(lay ? lay->u16() : 0); } }
			{ auto& o = add(x.colors.size()); for (auto t : x.colors) o.f32(t); }
			{ auto& o = add(x.triangle_plane_indices.size()); for (auto t : x.triangle_plane_indices) o.u16(t); }
			{ auto& o = add(x.triangle_planes.size()); for (auto& t : x.triangle_planes) { o.f32(t.distance); enc(o, t.normal); } }
			{ auto& o = add(x.wedge_map.size()); for (auto t : x.wedge_map) o.u16(t); }
			{ size_t n = lay ? lay->below(3) : 0; auto& o = add(n); while (n--) o.u16(7).u16(9); } // vertex updates are not kept
			{ auto& o = add(x.triangle_edges.size()); for (auto& t : x.triangle_edges) o.u16(t.edges[0]).u16(t.edges[1]).u16(t.edges[2]); }
			{ auto& o = add(x.edges.size()); for (auto& t : x.edges) o.u16(t.edges[0]).u16(t.edges[1]); }
			{ auto& o = add(x.edge_scores.size()); for (auto t : x.edge_scores) o.f32(t); }
		}
		std::vector<size_t> order(b.size());
		for (size_t i = 0; i < b.size(); ++i) order[i] = i;
		if (lay && lay->flip()) for (size_t i = b.size(); i-- > 1;) std::swap(order[i], order[lay->below(i + 1)]);
		unsigned gap = lay ? lay->below(3) : 0;
		Out content;
		for (auto i : order) {
			if (gap == 1) while (content.size() % 16) content.u8(0xCD);
			if (gap == 2) for (size_t j = lay->below(4); j > 0; --j) content.u8(0xCD);
			b[i].at = content.size();
			content.cat(b[i].o);
		}
		Out o;
		o.u16(g == GameVersion::GOTHIC_2 ? (lay && lay->chance(1, 4) ? 0x805 : 0x905) : 0x305).u32(content.size()).cat(content).u8(m.sub_meshes.size());
		for (auto& x : b) o.u32(x.at).u32(x.n);
		std::vector<Material> mats;
		for (auto& x : m.sub_meshes) mats.push_back(x.mat);
		auto mb = msh::enc_materials(mats, g, false);
		o.raw(mb.data(), mb.size());
		if (g == GameVersion::GOTHIC_2) o.u8(m.alpha_test ? (lay && lay->chance(1, 4) ? 1 + lay->below(255) : 1) : 0);
		enc(o, m.bbox), enc(o, m.obbox);
		for (int i = 0; i < 16; ++i) o.u8(lay ? lay->u8() : 0);
		if (parts) *parts = b;
		return o;
	}
	/// Every data block of a saved 0xB100 chunk lies where the chunk's table says, within its content, in whatever order.
	inline void blocks(Bytes const& f, size_t start, size_t len, MultiResolutionMesh& m, GameVersion g, std::string const& w, std::string const& key) {
		std::vector<Block> b;
		section(m, g, nullptr, &b);
		auto num = [&](size_t at, int n) {
			CHECK(key + "-table", at + n <= len, w << ": the chunk ends within its table");
			uint32_t v = 0;
			for (int i = 0; i < n; ++i) v |= uint32_t(f.at(start + at + i)) << (8 * i);
			return v;
		};
		size_t size = num(2, 4), at = 6 + size;
		CHECK(key + "-table", num(at, 1) == m.sub_meshes.size(), w << ": the table counts " << num(at, 1) << " sub-meshes");
		at += 1;
		for (size_t i = 0; i < b.size(); ++i, at += 8) {
			size_t off = num(at, 4), n = num(at + 4, 4);
			CHECK(key + "-table", n == b[i].n, w << ": block " << i << " has " << n << " elements instead of " << b[i].n);
			if (!n) continue;
			CHECK(key + "-table", off <= size && b[i].o.size() <= size - off, w << ": block " << i << " at " << off << " does not lie within the content of " << size << " bytes");
			auto want = b[i].o.bytes();
			CHECK(key + "-table", std::equal(want.begin(), want.end(), f.begin() + start + 6 + off), w << ": block " << i << " is not what lies at its offset " << off);
		}
	}
	inline void encode(Out& o, MultiResolutionMesh& m, GameVersion g, pbt::Src* lay = nullptr, Noise n = {}) {
		n.chunk(o, 0xB100, section(m, g, lay));
		n.chunk(o, 0xB1FF, {});
	}
	inline void same(MultiResolutionMesh& a, MultiResolutionMesh& b, GameVersion g, std::string const& w, std::string const& key) {
		MDL_ALL("position", a.positions, b.positions, eq(x, y));
		MDL_ALL("normal", a.normals, b.normals, eq(x, y));
		MDL_EQ("alpha-test", !a.alpha_test == !b.alpha_test);
		MDL_EQ("bbox", eq(a.bbox, b.bbox));
		MDL_EQ("obbox", eq(a.obbox, b.obbox));
		MDL_EQ("sub-mesh-count", a.sub_meshes.size() == b.sub_meshes.size());
		MDL_EQ("material-count", a.materials.size() == b.materials.size());
		for (size_t i = 0; i < a.sub_meshes.size(); ++i) {
			auto &p = a.sub_meshes[i], &q = b.sub_meshes[i];
			msh::same_material(p.mat, q.mat, g, w, (key + "-sub-material").c_str());
			msh::same_material(a.materials[i], b.materials[i], g, w, (key + "-material").c_str());
			MDL_ALL("triangle", p.triangles, q.triangles, !memcmp(x.wedges, y.wedges, sizeof x.wedges));
			MDL_ALL("wedge", p.wedges, q.wedges, eq(x.normal, y.normal) && eq(x.texture, y.texture) && x.index == y.index);
			MDL_ALL("color", p.colors, q.colors, eq(x, y));
			MDL_EQ("plane-indices", p.triangle_plane_indices == q.triangle_plane_indices);
			MDL_ALL("plane", p.triangle_planes, q.triangle_planes, eq(x.distance, y.distance) && eq(x.normal, y.normal));
			MDL_ALL("triangle-edge", p.triangle_edges, q.triangle_edges, !memcmp(x.edges, y.edges, sizeof x.edges));
			MDL_ALL("edge", p.edges, q.edges, !memcmp(x.edges, y.edges, sizeof x.edges));
			MDL_ALL("edge-score", p.edge_scores, q.edge_scores, eq(x, y));
			MDL_EQ("wedge-map", p.wedge_map == q.wedge_map);
		}
	}

	// ---- soft skins
	inline SoftSkinMesh soft_skin(pbt::Src& s, GameVersion g, unsigned max = 5) {
		SoftSkinMesh m;
		m.mesh = mrm(s, g, max);
		m.weights.resize(m.mesh.positions.size());
		for (auto& v : m.weights) {
			v.resize(s.len(4));
			for (auto& x : v) x.weight = s.finite(), x.position = msh::vec(s), x.node_index = s.u8();
		}
		m.wedge_normals.resize(s.len(max));
		for (auto& x : m.wedge_normals) x.normal = msh::vec(s), x.index = s.u32();
		m.nodes.resize(s.len(max));
		for (auto& x : m.nodes) x = s.i32();
		m.bboxes.resize(m.nodes.size());
		for (auto& x : m.bboxes) x = msh::obb(s);
		return m;
	}
	inline void encode(Out& o, SoftSkinMesh& m, GameVersion g, pbt::Src* lay = nullptr, Noise n = {}) {
		{ Out c; c.u32(4); n.chunk(o, 0xE100, c); }
		n.chunk(o, 0xB100, section(m.mesh, g, lay));
		Out c, wb;
		for (auto& v : m.weights) {
			wb.u32(v.size());
			for (auto& x : v) { wb.f32(x.weight); enc(wb, x.position); wb.u8(x.node_index); }
		}
		c.u32(wb.size()).cat(wb).u32(m.wedge_normals.size());
		for (auto& x : m.wedge_normals) { enc(c, x.normal); c.u32(x.index); }
		c.u16(m.nodes.size());
		for (auto x : m.nodes) c.u32(static_cast<uint32_t>(x));
		for (auto& x : m.bboxes) enc(c, x);
		n.chunk(o, 0xB1FF, c);
		n.chunk(o, 0xE110, {});
	}
	inline void same(SoftSkinMesh& a, SoftSkinMesh& b, GameVersion g, std::string const& w, std::string const& key) {
		same(a.mesh, b.mesh, g, w, key + "-mesh");
		MDL_EQ("weights-count", a.weights.size() == b.weights.size());
		for (size_t i = 0; i < a.weights.size(); ++i)
			MDL_ALL("weight", a.weights[i], b.weights[i], eq(x.weight, y.weight) && eq(x.position, y.position) && x.node_index == y.node_index);
		MDL_ALL("wedge-normal", a.wedge_normals, b.wedge_normals, eq(x.normal, y.normal) && x.index == y.index);
		MDL_EQ("nodes", a.nodes == b.nodes);
		MDL_ALL("node-box", a.bboxes, b.bboxes, eq(x, y));
	}

	// ---- model meshes and models
	inline ModelMesh model_mesh(pbt::Src& s, GameVersion g) {
		ModelMesh m;
		m.checksum = s.u32();
		for (size_t i = 0, n = s.len(3); i < n; ++i) m.meshes.push_back(soft_skin(s, g, 4));
		for (size_t i = 0, n = s.len(4); i < n; ++i) {
			auto name = s.chance(1, 3) ? "ZS_" + s.ident(5) : msh::line(s, 12);
			m.attachments[name] = mrm(s, g, 4);
		}
		return m;
	}
	/// `quirk`: as the game writes it, the soft skins follow the chunk that announces them
	inline void encode(Out& o, ModelMesh& m, GameVersion g, bool quirk, bool source, pbt::Src* lay = nullptr, Noise n = {}) {
		std::vector<std::string> names;
		for (auto& [k, _] : m.attachments) names.push_back(k);
		std::sort(names.begin(), names.end());
		if (lay) for (size_t i = names.size(); i-- > 1;) std::swap(names[i], names[lay->below(i + 1)]);
		{ Out c; c.u32(0x04030506); n.chunk(o, 0xD000, c); }
		if (source) { Out c; Date d {}; enc(c, d), c.line("SOURCE.ASC"); n.chunk(o, 0xD010, c); }
		{ Out c; c.u16(names.size()); for (auto& x : names) c.line(x); n.chunk(o, 0xD020, c); }
		for (auto& x : names) n.chunk(o, 0xB100, section(m.attachments[x], g, lay));
		Out c, skins;
		c.u32(m.checksum).u16(m.meshes.size());
		for (auto& x : m.meshes) encode(skins, x, g, lay, n);
		if (!quirk) c.cat(skins);
		n.chunk(o, 0xD030, c, false);
		if (quirk) o.cat(skins);
		n.chunk(o, 0xD040, {});
	}
	inline void same(ModelMesh& a, ModelMesh& b, GameVersion g, std::string const& w, std::string const& key) {
		MDL_EQ("checksum", a.checksum == b.checksum);
		MDL_EQ("skin-count", a.meshes.size() == b.meshes.size());
		for (size_t i = 0; i < a.meshes.size(); ++i) same(a.meshes[i], b.meshes[i], g, w, key + "-skin");
		MDL_EQ("attachment-count", a.attachments.size() == b.attachments.size());
		for (auto& [k, v] : a.attachments) {
			auto it = b.attachments.find(k);
			MDL_EQ("attachment-name", it != b.attachments.end());
			same(v, it->second, g, w + " attachment " + pbt::quote(k), key + "-attachment");
		}
	}

	// ---- fonts
	inline Font font(pbt::Src& s) {
		Font f;
		f.name = msh::line(s), f.height = s.u32();
		f.glyphs.resize(s.chance(1, 5) ? 256 : s.len(12));
		for (auto& x : f.glyphs) x.width = s.u8(), x.uv[0] = {s.finite(), s.finite()}, x.uv[1] = {s.finite(), s.finite()};
		return f;
	}
	inline void encode(Out& o, Font const& f) {
		o.line("1").line(f.name).u32(f.height).u32(f.glyphs.size());
		for (auto& x : f.glyphs) o.u8(x.width);
		for (int i = 0; i < 2; ++i) for (auto& x : f.glyphs) o.f32(x.uv[i].x).f32(x.uv[i].y);
	}
	inline void same(Font& a, Font& b, std::string const& w, std::string const& key) {
		MDL_EQ("name", a.name == b.name);
		MDL_EQ("height", a.height == b.height);
		MDL_ALL("glyph", a.glyphs, b.glyphs, x.width == y.width && eq(x.uv[0], y.uv[0]) && eq(x.uv[1], y.uv[1]));
	}

	// ---- animations: the samples are kept as stored
	struct Anim {
		ModelAnimation a; // everything but the samples
		uint16_t version {12};
		bool source {true}, events {true};
		std::vector<std::array<uint16_t, 6>> raw; // rotation, position
	};
	inline Anim animation(pbt::Src& s, unsigned max = 6) {
		Anim x;
		auto& a = x.a;
		x.version = s.u16();
		x.source = s.chance(3, 4), x.events = s.chance(3, 4);
		a.name = msh::line(s), a.next = msh::line(s), a.layer = s.u32(), a.fps = s.finite(), a.fps_source = s.finite();
		a.frame_count = s.len(max), a.node_count = s.len(max);
		a.sample_position_min = s.finite(), a.sample_position_scale = s.finite();
		if (s.flip()) a.sample_position_min = static_cast<float>(s.range(-10000, 10000)) / 16, a.sample_position_scale = static_cast<float>(s.range(0, 10000)) / 65536;
		a.bbox = msh::aabb(s);
		if (x.source) a.source_date = msh::date(s), a.source_path = msh::line(s), a.source_script = msh::line(s);
		if (x.events) {
			a.events.resize(s.len(4));
			for (auto& e : a.events) {
				e.type = static_cast<AnimationEventType>(s.below(12)), e.frame = s.u32(), e.tag = msh::line(s);
				for (auto& c : e.content) c = s.chance(1, 2) ? "" : msh::line(s);
				for (auto& v : e.values) v = s.finite();
				e.probability = s.finite();
			}
		}
		a.checksum = s.u32();
		for (size_t i = 0; i < a.node_count; ++i) a.node_indices.push_back(s.u32());
		x.raw.resize(a.node_count * a.frame_count);
		for (auto& r : x.raw) {
			for (int i = 0; i < 6; ++i) r[i] = s.u16();
			if (s.flip()) for (int i = 0; i < 3; ++i) r[i] = static_cast<uint16_t>(s.range(32767 - 20000, 32767 + 20000)); // inside the unit sphere, mostly
		}
		return x;
	}
	inline void encode(Out& o, Anim& x, Noise n = {}) {
		auto& a = x.a;
		n.chunk(o, 0xA000, {});
		{
			Out c;
			c.u16(x.version).line(a.name).u32(a.layer).u32(a.frame_count).u32(a.node_count).f32(a.fps).f32(a.fps_source).f32(a.sample_position_min).f32(a.sample_position_scale);
			enc(c, a.bbox);
			c.line(a.next);
			n.chunk(o, 0xA020, c);
		}
		if (x.source) { Out c; enc(c, a.source_date); c.line(a.source_path).line(a.source_script); n.chunk(o, 0xA010, c); }
		if (x.events) {
			Out c;
			c.u32(a.events.size());
			for (auto& e : a.events) {
				c.u32(static_cast<uint32_t>(e.type)).u32(e.frame).line(e.tag);
				for (auto& t : e.content) c.line(t);
				for (auto v : e.values) c.f32(v);
				c.f32(e.probability);
			}
			n.chunk(o, 0xA030, c);
		}
		Out c;
		c.u32(a.checksum);
		for (auto i : a.node_indices) c.u32(i);
		for (auto& r : x.raw) for (auto v : r) c.u16(v);
		n.chunk(o, 0xA090, c);
	}

	// ---- morph meshes
	struct Morph { MorphMesh m; GameVersion g {GameVersion::GOTHIC_1}; };
	inline Morph morph(pbt::Src& s, unsigned max = 6) {
		Morph x;
		x.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		auto& m = x.m;
		m.name = msh::line(s), m.mesh = mrm(s, x.g, max);
		for (size_t i = 0; i < m.mesh.positions.size(); ++i) m.morph_positions.push_back(msh::vec(s));
		m.animations.resize(s.len(4));
		for (auto& a : m.animations) {
			a.name = msh::line(s), a.blend_in = s.finite(), a.blend_out = s.finite(), a.duration = s.finite(), a.layer = s.i32(), a.speed = s.finite(), a.flags = s.u8();
			a.frame_count = s.len(5);
			a.vertices.resize(s.len(5));
			for (auto& v : a.vertices) v = s.u32();
			a.samples.resize(a.frame_count * a.vertices.size());
			for (auto& v : a.samples) v = msh::vec(s);
		}
		m.sources.resize(s.len(3));
		for (auto& v : m.sources) v.file_date = msh::date(s), v.file_name = msh::line(s);
		return x;
	}
	inline void encode(Out& o, Morph& x, pbt::Src* lay = nullptr, Noise n = {}) {
		auto& m = x.m;
		{ Out c; c.u16(m.sources.size()); for (auto& v : m.sources) { enc(c, v.file_date); c.line(v.file_name); } n.chunk(o, 0xE010, c); }
		{ Out c; c.u32(0x04030506).line(m.name); n.chunk(o, 0xE020, c); }
		n.chunk(o, 0xB100, section(m.mesh, x.g, lay));
		{ Out c; for (auto& v : m.morph_positions) enc(c, v); n.chunk(o, 0xB1FF, c); }
		Out c;
		c.u16(m.animations.size());
		for (auto& a : m.animations) {
			c.line(a.name).f32(a.blend_in).f32(a.blend_out).f32(a.duration).u32(static_cast<uint32_t>(a.layer)).f32(a.speed).u8(a.flags).u32(a.vertices.size()).u32(a.frame_count);
			for (auto v : a.vertices) c.u32(v);
			for (auto& v : a.samples) enc(c, v);
		}
		n.chunk(o, 0xE030, c);
	}
	inline void same(Morph& a, MorphMesh& b, std::string const& w, std::string const& key) {
		MDL_EQ("name", a.m.name == b.name);
		same(a.m.mesh, b.mesh, a.g, w, key + "-mesh");
		MDL_ALL("position", a.m.morph_positions, b.morph_positions, eq(x, y));
		MDL_ALL("source", a.m.sources, b.sources, eq(x.file_date, y.file_date) && x.file_name == y.file_name);
		MDL_ALL("animation", a.m.animations, b.animations, x.name == y.name && eq(x.blend_in, y.blend_in) && eq(x.blend_out, y.blend_out) && eq(x.duration, y.duration) && x.layer == y.layer && eq(x.speed, y.speed) && x.flags == y.flags && x.frame_count == y.frame_count && x.vertices == y.vertices);
		for (size_t i = 0; i < b.animations.size(); ++i) MDL_ALL("sample", a.m.animations[i].samples, b.animations[i].samples, eq(x, y));
	}
}
