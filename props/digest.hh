// What a loaded asset consists of, for comparing.
#pragma once
#include "assetgen.hh"
#include "objgen.hh"
#include "symgen.hh"
#include <zenkit/Model.hh>

namespace {
	/// All values in order
	struct Digest {
		std::string b;
		void bytes(void const* p, size_t n) { b.append(static_cast<char const*>(p), n); }
		template <typename T> void operator()(T const& v) {
			if constexpr (std::is_same_v<T, std::string>) (*this)(v.size()), b += v;
			else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) bytes(&v, sizeof v);
			else if constexpr (std::is_same_v<T, Vec2>) bytes(v.pointer(), 8);
			else if constexpr (std::is_same_v<T, Vec3>) bytes(v.pointer(), 12);
			else if constexpr (std::is_same_v<T, Quat>) bytes(v.pointer(), 16);
			else if constexpr (std::is_same_v<T, Mat4>) bytes(v.pointer(), 64);
			else if constexpr (std::is_same_v<T, AxisAlignedBoundingBox>) (*this)(v.min), (*this)(v.max);
			else if constexpr (std::is_same_v<T, Date>) all(v.year, v.month, v.day, v.hour, v.minute, v.second);
			else if constexpr (std::is_same_v<T, AnimationSample>) all(v.position, v.rotation);
			else if constexpr (std::is_same_v<T, AnimationEvent>) {
				all(v.type, v.frame, v.tag, v.probability);
				for (auto& x : v.content) (*this)(x);
				for (auto& x : v.values) (*this)(x);
			} else if constexpr (std::is_same_v<T, MorphAnimation>) all(v.name, v.layer, v.blend_in, v.blend_out, v.duration, v.speed, v.flags, v.frame_count, v.vertices, v.samples);
			else if constexpr (std::is_same_v<T, MorphSource>) all(v.file_date, v.file_name);
			else if constexpr (std::is_same_v<T, ModelHierarchyNode>) all(v.parent_index, v.name, v.transform);
			else if constexpr (std::is_same_v<T, FontGlyph>) all(v.width, v.uv[0], v.uv[1]);
			else if constexpr (std::is_same_v<T, MdsEventTag>) all(v.frame, v.type, v.slot, v.slot2, v.item, v.frames, v.fight_mode, v.attached);
			else if constexpr (std::is_same_v<T, MdsParticleEffect>) all(v.frame, v.index, v.name, v.position, v.attached);
			else if constexpr (std::is_same_v<T, MdsCameraTremor>) all(v.frame, v.field1, v.field2, v.field3, v.field4);
			else if constexpr (std::is_same_v<T, MdsParticleEffectStop>) all(v.frame, v.index);
			else if constexpr (std::is_same_v<T, MdsSoundEffect> || std::is_same_v<T, MdsSoundEffectGround>) all(v.frame, v.name, v.range, v.empty_slot);
			else if constexpr (std::is_same_v<T, MdsMorphAnimation>) all(v.frame, v.animation, v.node);
			else if constexpr (std::is_same_v<T, MdsAnimation>) all(v.name, v.layer, v.next, v.blend_in, v.blend_out, v.flags, v.model, v.direction, v.first_frame, v.last_frame, v.fps, v.speed, v.collision_volume_scale, v.events, v.pfx, v.pfx_stop, v.sfx, v.sfx_ground, v.morph, v.tremors);
			else if constexpr (std::is_same_v<T, MdsAnimationAlias>) all(v.name, v.layer, v.next, v.blend_in, v.blend_out, v.flags, v.alias, v.direction);
			else if constexpr (std::is_same_v<T, MdsAnimationBlend>) all(v.name, v.next, v.blend_in, v.blend_out);
			else if constexpr (std::is_same_v<T, MdsAnimationCombine>) all(v.name, v.layer, v.next, v.blend_in, v.blend_out, v.flags, v.model, v.last_frame);
			else if constexpr (std::is_same_v<T, MdsModelTag>) (*this)(v.bone);
			else if constexpr (std::is_same_v<T, Polygon>) {
				all(v.material, v.lightmap, v.index_count, v.index_offset, v.plane_distance, v.plane_normal);
				flags(v.flags);
			} else if constexpr (std::is_same_v<T, PolygonFlagSet>) flags(v);
			else { (*this)(v.size()); for (auto const& x : v) (*this)(x); }
		}
		void flags(PolygonFlagSet const& f) { all(int(f.is_portal), int(f.is_occluder), int(f.is_sector), int(f.should_relight), int(f.is_outdoor), int(f.is_ghost_occluder), int(f.is_dynamically_lit), int(f.sector_index), int(f.is_lod), int(f.normal_axis)); }
		template <typename... A> void all(A const&... a) { ((*this)(a), ...); }
		/// What saving gives
		template <typename F> void saved(F&& f) {
			Bytes o;
			auto w = Write::to(&o);
			try { f(w.get()); } catch (Error const& e) { b += std::string("not saved: ") + e.what(); }
			bytes(o.data(), o.size());
		}
		template <typename S> void both(S const& x) { for (auto g : {GameVersion::GOTHIC_1, GameVersion::GOTHIC_2}) saved([&](Write* w) { x.save(w, g); }); }
	};
	void see(Digest& d, Texture& t) {
		d.all(t.format(), t.width(), t.height(), t.ref_width(), t.ref_height(), t.mipmaps(), t.average_color());
		for (uint32_t i = 0; i < t.mipmaps() && i < 40; ++i) {
			d(t.data(i));
			try { d(t.as_rgba8(i)); } catch (Error const& e) { d(std::string(e.what())); }
		}
		d.saved([&](Write* w) { t.save(w); });
	}
	void see(Digest& d, Font& f) { d.all(f.name, f.height, f.glyphs); }
	void see(Digest& d, Mesh& m) {
		d.both(m);
		d.all(m.date, m.name, m.bbox, m.vertices, m.geometry, m.polygon_vertex_indices, m.polygon_feature_indices, m.polygons.material_indices, m.polygons.lightmap_indices, m.polygons.feature_indices, m.polygons.vertex_indices, m.polygons.flags);
	}
	void see(Digest& d, ModelHierarchy& h) {
		d.all(h.nodes, h.bbox, h.collision_bbox, h.root_translation, h.checksum, h.source_date, h.source_path);
		d.saved([&](Write* w) { h.save(w); });
	}
	void see(Digest& d, MultiResolutionMesh& m) { d.both(m); }
	void see(Digest& d, ModelMesh& m) { d.both(m), d(m.checksum); }
	void see(Digest& d, Model& m) { d.both(m); }
	void see(Digest& d, ModelAnimation& a) { d.all(a.name, a.next, a.layer, a.frame_count, a.node_count, a.fps, a.fps_source, a.sample_position_min, a.sample_position_scale, a.bbox, a.checksum, a.source_path, a.source_date, a.source_script, a.samples, a.events, a.node_indices); }
	void see(Digest& d, MorphMesh& m) { d.both(m.mesh), d.all(m.name, m.morph_positions, m.animations, m.sources); }
	void see(Digest& d, ModelScript& m) { d.all(m.skeleton.name, m.skeleton.disable_mesh, m.meshes, m.disabled_animations, m.combinations, m.blends, m.aliases, m.model_tags, m.animations); }
	void see(Digest& d, DaedalusScript& sc) {
		for (auto& y : sc.symbols()) {
			d.all(y.name(), y.type(), y.count(), y.address(), y.parent(), y.offset_as_member(), y.class_size(), y.index(), y.file_index(), y.line_start(), y.line_count(), y.char_start(), y.char_count(), y.rtype(), y.is_const(), y.is_member(), y.is_external(), y.is_merged(), y.is_generated(), y.has_return());
			for (uint16_t i = 0; i < y.count() && i < 20; ++i)
				try {
					if (y.is_member()) break;
					if (y.type() == DaedalusDataType::INT || y.type() == DaedalusDataType::FUNCTION) d(y.get_int(i));
					else if (y.type() == DaedalusDataType::FLOAT) d(y.get_float(i));
					else if (y.type() == DaedalusDataType::STRING) d(y.get_string(i));
				} catch (Error const& e) { d(std::string(e.what())); }
		}
		for (uint32_t a = 0, n = sc.size(); a < n && a < 400; ++a)
			try {
				auto in = sc.instruction_at(a);
				d.all(in.op, in.address, in.symbol, in.immediate, in.index, in.size);
			} catch (Error const& e) { d(std::string(e.what())); }
	}
	/// The dates in the headers of archives are not part of it.
	void undate(std::string& b) {
		static std::string const mark = "\ndate ";
		std::string out;
		size_t from = 0;
		for (size_t at = 0; (at = b.find(mark, at)) != std::string::npos;) {
			at += mark.size();
			auto end = at;
			while (end < b.size() && end - at < 22 && b[end] != '\n') ++end;
			if (end == b.size() || b[end] != '\n') continue;
			out.append(b, from, at - from);
			from = at = end;
		}
		if (from) b = out.append(b, from);
	}
	/// The object as it is saved, behind the header and its date
	void see(Digest& d, std::shared_ptr<Object> const& o, GameVersion g) {
		d(o != nullptr);
		if (!o) return;
		d(o->get_object_type());
		for (bool save : {false, true}) {
			Bytes b;
			auto w = Write::to(&b);
			try {
				auto to = save ? WriteArchive::to_save(w.get(), ArchiveFormat::BINARY) : WriteArchive::to(w.get(), ArchiveFormat::BINARY);
				to->write_object(o, g);
			} catch (Error const& e) { d.b += std::string("not saved: ") + e.what(); }
			std::string t(reinterpret_cast<char const*>(b.data()), b.size());
			auto at = t.find("objects");
			d(at == std::string::npos ? t : t.substr(at));
		}
		if (auto* l = dynamic_cast<CutsceneLibrary*>(o.get()); l && o->get_object_type() == T::zCCSLib)
			for (auto& x : l->blocks) if (auto m = x ? x->get_message() : nullptr) d.all(m->type, m->name, m->text);
	}
}
