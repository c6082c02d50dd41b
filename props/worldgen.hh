// Worlds: generator, archive entries they stand for (independent of the library's load()/save()), comparison.
#pragma once
#include "meshgen.hh"
#include <numeric>
#include <zenkit/World.hh>

namespace wld {
	using namespace zenkit;
	using fld::T;
	inline BspTree bsp(pbt::Src& s, GameVersion g, uint32_t polygons) {
		BspTree t;
		t.mode = s.flip() ? BspTreeType::OUTDOOR : BspTreeType::INDOOR;
		if (polygons) for (size_t i = 0, n = s.len(20); i < n; ++i) t.polygon_indices.push_back(s.below(polygons));
		unsigned budget = s.len(14);
		std::function<void(int, unsigned)> node = [&](int parent, unsigned depth) {
			auto self = t.nodes.size();
			t.nodes.emplace_back();
			BspNode n {};
			n.parent_index = parent;
			n.bbox = msh::aabb(s);
			n.polygon_index = s.below(t.polygon_indices.size() + 1);
			n.polygon_count = s.below(t.polygon_indices.size() + 1 - n.polygon_index);
			if (budget) --budget;
			bool front = budget && depth < 8 && s.chance(3, 4), back = budget && depth < 8 && s.chance(3, 4);
			if (front || back) {
				n.plane = {s.finite(), s.finite(), s.finite(), s.finite()};
				if (g == GameVersion::GOTHIC_1) n.lod = s.u8();
			}
			t.nodes[self] = n;
			if (!front && !back) {
				t.leaf_node_indices.push_back(self);
				for (uint32_t i = 0; i < n.polygon_count; ++i) t.leaf_polygons.push_back(t.polygon_indices[n.polygon_index + i]);
			}
			if (front) t.nodes[self].front_index = static_cast<int>(t.nodes.size()), node(static_cast<int>(self), depth + 1);
			if (back) t.nodes[self].back_index = static_cast<int>(t.nodes.size()), node(static_cast<int>(self), depth + 1);
		};
		if (budget) node(-1, 0);
		std::sort(t.leaf_polygons.begin(), t.leaf_polygons.end());
		if (s.chance(2, 3)) for (size_t i = 0; i < t.leaf_node_indices.size(); ++i) t.light_points.push_back(msh::vec(s));
		// now and then as many as make the count look like white space after the name
		auto list = [&](std::vector<uint32_t>& v) { for (size_t i = 0, n = s.chance(1, 6) ? s.pick({9, 10, 11, 12, 13, 32}) : s.len(4); i < n; ++i) v.push_back(s.u32()); };
		t.sectors.resize(s.len(3));
		for (auto& x : t.sectors) x.name = msh::line(s), list(x.node_indices), list(x.portal_polygon_indices);
		list(t.portal_polygon_indices);
		return t;
	}
	inline void encode(Out& o, BspTree const& t, GameVersion g, msh::Noise n = {}) {
		auto list = [](Out& c, std::vector<uint32_t> const& v) { for (auto x : v) c.u32(x); };
		{ Out c; c.u16(g == GameVersion::GOTHIC_2 ? 4 : 2).u32(static_cast<uint32_t>(t.mode)); n.chunk(o, 0xC000, c); }
		{ Out c; c.u32(t.polygon_indices.size()); list(c, t.polygon_indices); n.chunk(o, 0xC010, c); }
		{
			Out c;
			c.u32(t.nodes.size()).u32(t.leaf_node_indices.size());
			for (auto& x : t.nodes) {
				msh::enc(c, x.bbox);
				c.u32(x.polygon_index).u32(x.polygon_count);
				if (x.is_leaf()) continue;
				unsigned f = (x.front_index != -1) | (x.back_index != -1) << 1;
				if (x.front_index != -1 && t.nodes[x.front_index].is_leaf()) f |= 4;
				if (x.back_index != -1 && t.nodes[x.back_index].is_leaf()) f |= 8;
				c.u8(f).f32(x.plane.w).f32(x.plane.x).f32(x.plane.y).f32(x.plane.z);
				if (g == GameVersion::GOTHIC_1) c.u8(x.lod);
			}
			n.chunk(o, 0xC040, c);
		}
		if (!t.light_points.empty()) { Out c; for (auto& p : t.light_points) msh::enc(c, p); n.chunk(o, 0xC045, c); }
		{
			Out c;
			c.u32(t.sectors.size());
			for (auto& x : t.sectors) c.line(x.name).u32(x.node_indices.size()).u32(x.portal_polygon_indices.size()), list(c, x.node_indices), list(c, x.portal_polygon_indices);
			c.u32(t.portal_polygon_indices.size());
			list(c, t.portal_polygon_indices);
			n.chunk(o, 0xC050, c);
		}
		{ Out c; c.u8(0x42); n.chunk(o, 0xC0FF, c); }
	}
	inline void same(BspTree const& a, BspTree const& b, GameVersion g, std::string const& w) {
#define BSP_EQ(what, cond) CHECK("bsp-" what, cond, w << ": " what " of the BSP tree differs")
		BSP_EQ("mode", a.mode == b.mode);
		BSP_EQ("polygons", a.polygon_indices == b.polygon_indices);
		BSP_EQ("node-count", a.nodes.size() == b.nodes.size());
		for (size_t i = 0; i < a.nodes.size(); ++i) {
			auto &x = a.nodes[i], &y = b.nodes[i];
			BSP_EQ("links", x.front_index == y.front_index && x.back_index == y.back_index && x.parent_index == y.parent_index);
			BSP_EQ("node-box", msh::eq(x.bbox, y.bbox));
			BSP_EQ("node-polygons", x.polygon_index == y.polygon_index && x.polygon_count == y.polygon_count);
			if (!x.is_leaf()) BSP_EQ("node-plane", msh::eq(x.plane, y.plane));
			if (!x.is_leaf() && g == GameVersion::GOTHIC_1) BSP_EQ("node-lod", x.lod == y.lod);
		}
		BSP_EQ("leaves", a.leaf_node_indices == b.leaf_node_indices);
		BSP_EQ("leaf-polygons", a.leaf_polygons == b.leaf_polygons);
		BSP_EQ("light-point-count", a.light_points.size() == b.light_points.size());
		for (size_t i = 0; i < a.light_points.size(); ++i) BSP_EQ("light-points", msh::eq(a.light_points[i], b.light_points[i]));
		BSP_EQ("sector-count", a.sectors.size() == b.sectors.size());
		for (size_t i = 0; i < a.sectors.size(); ++i) {
			BSP_EQ("sector-name", a.sectors[i].name == b.sectors[i].name);
			BSP_EQ("sector-nodes", a.sectors[i].node_indices == b.sectors[i].node_indices);
			BSP_EQ("sector-portals", a.sectors[i].portal_polygon_indices == b.sectors[i].portal_polygon_indices);
		}
		BSP_EQ("portals", a.portal_polygon_indices == b.portal_polygon_indices);
#undef BSP_EQ
	}
	inline std::shared_ptr<VirtualObject> vob(fld::Gen& g, unsigned depth) {
		auto& c = fld::classes();
		auto o = std::static_pointer_cast<VirtualObject>(g.build(c[g.s.chance(1, 2) ? 0 : g.s.below(fld::VOB_CLASSES)].type));
		if (depth) for (size_t i = 0, n = g.s.len(3); i < n; ++i) o->children.push_back(vob(g, depth - 1));
		return o;
	}
	inline std::shared_ptr<WayNet> waynet(fld::Gen& g) {
		auto n = std::make_shared<WayNet>();
		auto& s = g.s;
		for (size_t i = 0, c = s.len(7); i < c; ++i) {
			auto p = std::static_pointer_cast<WayPoint>(g.build(T::zCWaypoint));
			p->free_point = s.chance(1, 3);
			n->points.push_back(p);
		}
		if (!n->points.empty())
			for (size_t i = 0, c = s.len(8); i < c; ++i) n->edges.emplace_back(n->points[s.below(n->points.size())], n->points[s.below(n->points.size())]);
		// points no edge leads to are stored as free points
		for (auto& p : n->points) {
			bool linked = false;
			for (auto& [a, b] : n->edges) if (a == p || b == p) linked = true;
			if (!linked) p->free_point = true;
		}
		return n;
	}
	/// Points in the order of a file: free ones, then the others as the edges mention them.
	inline std::vector<WayPoint*> order(WayNet const& n) {
		std::vector<WayPoint*> v;
		for (auto& p : n.points) if (p->free_point) v.push_back(p.get());
		auto add = [&](WayPoint* p) { if (std::find(v.begin(), v.end(), p) == v.end()) v.push_back(p); };
		for (auto& [a, b] : n.edges) add(a.get()), add(b.get());
		return v;
	}
	inline std::shared_ptr<World> world(pbt::Src& s, fld::Ctx const& c, bool wide = false) {
		auto w = std::make_shared<World>();
		fld::Gen g {s, c};
		g.budget = 8;
		for (size_t i = 0, n = s.len(3); i < n; ++i) w->world_vobs.push_back(vob(g, 3));
		w->way_net = waynet(g);
		if (!c.save) {
			w->world_mesh = msh::mesh(s, c.g, wide || c.g2(), 6);
			w->world_bsp_tree = bsp(s, c.g, static_cast<uint32_t>(w->world_mesh.geometry.size()));
			msh::triangulate(w->world_mesh, w->world_bsp_tree.leaf_polygons);
		} else {
			if (s.chance(1, 2)) w->player = std::static_pointer_cast<CutscenePlayer>(g.build(T::oCCSPlayer));
			if (s.chance(1, 2)) w->sky_controller = std::static_pointer_cast<SkyController>(g.build(T::zCSkyControler_Outdoor));
			w->npcs.resize(s.len(2));
			for (auto& x : w->npcs) g.obj("", x, {T::oCNpc});
			w->npc_spawns.resize(s.len(2));
			for (auto& x : w->npc_spawns) g.obj("", x.npc, {T::oCNpc}), g.vec3("", x.position), x.timer = g.number();
			w->npc_spawn_enabled = s.flip();
			if (c.g2()) w->npc_spawn_flags = s.i32();
		}
		return w; // objects nothing owns are gone from here on
	}
	inline arch::Item section(char const* name, arch::Items kids) {
		arch::Item i;
		i.k = arch::OBJ, i.name = name, i.s = "%"; // binary files leave the class empty, see items()
		i.kids = std::move(kids);
		return i;
	}
	/// Entries of the sections of a world; entry "raw" stands for the mesh and BSP tree.
	struct Sections {
		arch::Item vobs, player, sky, ways;
		arch::Items tail;
		bool has_player {false}, has_sky {false};
		uint32_t objects {0};
	};
	/// With `strange`, the object tree also has objects of classes the library does not know, with children of their own.
	inline Sections sections(World& w, fld::Ctx const& c, bool ways_first = false, pbt::Src* strange = nullptr) {
		Sections r;
		fld::Dump d {c};
		d.next = 1; // the world
		auto take = [&] { arch::Items v; v.swap(d.out); return v; };
		auto ways = [&] {
			if (!w.way_net) { r.ways = section("WayNet", {}); return; }
			arch::Item net;
			net.k = arch::OBJ, net.name = "%", net.s = "zCWayNet", net.u = w.way_net->get_version_identifier(c.g), net.index = d.next++;
			d.i32("waynetVersion", 1);
			int free = 0;
			for (auto& p : w.way_net->points) free += p->free_point;
			d.i32("numWaypoints", free);
			free = 0;
			for (auto& p : w.way_net->points) if (p->free_point) d.put(fld::num("waypoint", free++), p.get());
			d.i32("numWays", static_cast<int>(w.way_net->edges.size()));
			int i = 0;
			for (auto& [a, b] : w.way_net->edges) d.put(fld::num("wayl", i), a.get()), d.put(fld::num("wayr", i++), b.get());
			net.kids = take();
			r.ways = section("WayNet", {net});
		};
		if (ways_first) ways();
		int n = 0;
		std::function<void(unsigned)> unknown = [&](unsigned depth) {
			arch::Item it;
			it.k = arch::OBJ, it.name = "%", it.s = strange->pick({"zCVobStrange:zCVob", "oCSomething", "xCVob:zCVob"}), it.u = strange->u16(), it.index = d.next++;
			arch::Items save;
			save.swap(d.out);
			for (size_t i = 0, m = strange->len(4); i < m; ++i) switch (strange->below(4)) {
				case 0: d.i32("childs0", strange->i32()); break;
				case 1: d.str("vobName", "X"); break;
				case 2: d.vec3("trafo", {1, 2, 3}); break;
				default: d.put("visual", nullptr);
			}
			it.kids.swap(d.out);
			d.out.swap(save);
			d.out.push_back(std::move(it));
			unsigned kids = depth ? strange->len(2) : 0;
			d.i32(fld::num("childs", n++), static_cast<int>(kids));
			while (kids--) unknown(depth - 1);
		};
		std::function<void(std::vector<std::shared_ptr<VirtualObject>>&)> tree = [&](std::vector<std::shared_ptr<VirtualObject>>& v) {
			std::vector<unsigned> extra(v.size() + 1);
			if (strange) for (auto& x : extra) x = strange->chance(1, 5) ? 1 + strange->below(2) : 0;
			d.i32(fld::num("childs", n++), static_cast<int>(std::accumulate(extra.begin(), extra.end(), v.size())));
			for (size_t i = 0; i <= v.size(); ++i) {
				while (extra[i]--) unknown(2);
				if (i < v.size()) d.put("%", v[i].get()), tree(v[i]->children);
			}
		};
		tree(w.world_vobs);
		r.vobs = section("VobTree", take());
		if (c.save) {
			if ((r.has_player = bool(w.player))) d.put("%", w.player.get()), r.player = section("CutscenePlayer", take());
			if ((r.has_sky = bool(w.sky_controller))) d.put("%", w.sky_controller.get()), r.sky = section("SkyCtrl", take());
		}
		if (!ways_first) ways();
		if (c.save) {
			d.i32("npcCount", static_cast<int>(w.npcs.size()));
			for (size_t i = 0; i < w.npcs.size(); ++i) d.put(fld::num("npc", i), w.npcs[i].get());
			d.i32("NoOfEntries", static_cast<int>(w.npc_spawns.size()));
			for (auto& x : w.npc_spawns) d.put("npc", x.npc.get()), d.vec3("spawnPos", x.position), d.flt("timer", x.timer);
			d.boolean("spawningEnabled", w.npc_spawn_enabled);
			if (c.g2()) d.i32("spawnFlags", w.npc_spawn_flags);
			r.tail = take();
		}
		r.objects = d.next;
		return r;
	}
	inline std::vector<uint8_t> mesh_and_bsp(World& w, GameVersion g, bool wide, msh::Noise n = {}) {
		Out o, body;
		msh::encode(body, w.world_mesh, g, wide, false, n);
		encode(body, w.world_bsp_tree, g, n);
		auto& b = body.b;
		o.u32(g == GameVersion::GOTHIC_2 ? 0x4090000 : 0x2090000).u32(b.size()).raw(b.data(), b.size());
		return o.b;
	}
	inline arch::Item items(World& w, fld::Ctx const& c, bool ways_first, bool mesh_last, bool wide, uint32_t& objects, msh::Noise n = {}, pbt::Src* strange = nullptr) {
		auto s = sections(w, c, ways_first, strange);
		objects = s.objects;
		arch::Item o;
		o.k = arch::OBJ, o.name = "%", o.s = "oCWorld:zCWorld", o.u = 64513, o.index = 0;
		arch::Item blob;
		blob.k = arch::BLOB;
		if (!c.save) blob.raw = mesh_and_bsp(w, c.g, wide, n);
		auto mesh = section("MeshAndBsp", {blob});
		if (!c.save && !mesh_last) o.kids.push_back(mesh);
		if (ways_first) o.kids.push_back(s.ways);
		o.kids.push_back(s.vobs);
		if (s.has_player) o.kids.push_back(s.player);
		if (s.has_sky) o.kids.push_back(s.sky);
		if (!ways_first) o.kids.push_back(s.ways);
		if (!c.save && mesh_last) o.kids.push_back(mesh);
		if (strange) // sections nobody knows
			for (size_t j = strange->below(3); j > 0; --j) {
				arch::Item e;
				e.k = arch::INT, e.name = "childs0", e.u = strange->u32();
				o.kids.insert(o.kids.begin() + static_cast<long>(strange->below(o.kids.size() + 1)), section(strange->flip() ? "Weather" : "SomeThing", strange->flip() ? arch::Items {e, e} : arch::Items {}));
			}
		o.kids.push_back(section("EndMarker", {}));
		if (c.fmt == ArchiveFormat::BINARY) for (auto& i : o.kids) i.s.clear();
		for (auto& i : s.tail) o.kids.push_back(i);
		return o;
	}
	inline void same(World& a, World& b, fld::Ctx const& c, std::string const& w) {
		bool lossy = c.fmt == ArchiveFormat::ASCII;
		auto x = sections(a, c);
		CHECK("waynet", b.way_net != nullptr, w << ": no way net was loaded");
		auto y = sections(b, c);
		fld::same({x.vobs}, {y.vobs}, lossy, w, "object-tree");
		fld::same({x.ways}, {y.ways}, lossy, w, "way-net");
		auto p = order(*a.way_net), q = order(*b.way_net);
		CHECK("way-points", b.way_net->points.size() == p.size() && q.size() == p.size(), w << ": " << p.size() << " way points became " << b.way_net->points.size());
		for (size_t i = 0; i < p.size(); ++i) {
			CHECK("way-points", b.way_net->points[i].get() == q[i], w << ": way point " << i << " is out of place");
			CHECK("way-point-free", p[i]->free_point == q[i]->free_point, w << ": free_point of way point " << i << " differs");
		}
		CHECK("player", x.has_player == y.has_player, w << ": the cutscene player differs");
		CHECK("sky", x.has_sky == y.has_sky, w << ": the sky controller differs");
		fld::same({x.player}, {y.player}, lossy, w, "player");
		fld::same({x.sky}, {y.sky}, lossy, w, "sky");
		fld::same(x.tail, y.tail, lossy, w, "npcs");
		if (!c.save) {
			msh::same(a.world_mesh, b.world_mesh, c.g, false, w, "mesh");
			same(a.world_bsp_tree, b.world_bsp_tree, c.g, w);
		}
	}
}
