// Specification of how every serialisable class is laid out as archive entries (engine entry names, types, order),
// written independently of the library's load()/save(). One visitor per class serves two purposes:
//   Gen   fills every persistent field with generated values of its domain,
//   Dump  renders an object as the sequence of archive entries it stands for (arch::Items).
// Two objects are equal when their dumps are, a saved file is right when its entries are the dump.
#pragma once
#include "arch.hh"
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Material.hh>
#include <zenkit/SaveGame.hh>
#include <zenkit/World.hh>
#include <zenkit/vobs/Camera.hh>
#include <zenkit/vobs/Light.hh>
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/MovableObject.hh>
#include <zenkit/vobs/Sound.hh>
#include <zenkit/vobs/Trigger.hh>
#include <zenkit/vobs/Zone.hh>
#include <type_traits>

namespace fld {
	using namespace zenkit;
	using T = ObjectType;

	struct Ctx {
		GameVersion g {GameVersion::GOTHIC_1};
		bool save {false};
		bool packed {true};
		ArchiveFormat fmt {ArchiveFormat::BINARY};
		uint32_t unknown {0}; // filler for contents the library does not interpret
		bool original {false}; // as the original game writes it where that differs in form only
		bool g2() const { return g == GameVersion::GOTHIC_2; }
	};

	struct Class { T type; char const* name; std::shared_ptr<Object> (*make)(); };
	template <class C> std::shared_ptr<Object> mk() { return std::make_shared<C>(); }
	inline std::vector<Class> const& classes() {
		static std::vector<Class> const c {
		    {T::zCVob, "zCVob", mk<VirtualObject>},
		    {T::zCVobLevelCompo, "zCVobLevelCompo:zCVob", mk<VLevel>},
		    {T::zCVobSpot, "zCVobSpot:zCVob", mk<VSpot>},
		    {T::zCVobStair, "zCVobStair:zCVob", mk<VStair>},
		    {T::zCVobStartpoint, "zCVobStartpoint:zCVob", mk<VStartPoint>},
		    {T::zCVobScreenFX, "zCVobScreenFX:zCVob", mk<VScreenEffect>},
		    {T::oCItem, "oCItem:zCVob", mk<VItem>},
		    {T::oCNpc, "oCNpc:zCVob", mk<VNpc>},
		    {T::oCMOB, "oCMOB:zCVob", mk<VMovableObject>},
		    {T::oCMobInter, "oCMobInter:oCMOB:zCVob", mk<VInteractiveObject>},
		    {T::oCMobBed, "oCMobBed:oCMobInter:oCMOB:zCVob", mk<VBed>},
		    {T::oCMobFire, "oCMobFire:oCMobInter:oCMOB:zCVob", mk<VFire>},
		    {T::oCMobLadder, "oCMobLadder:oCMobInter:oCMOB:zCVob", mk<VLadder>},
		    {T::oCMobSwitch, "oCMobSwitch:oCMobInter:oCMOB:zCVob", mk<VSwitch>},
		    {T::oCMobWheel, "oCMobWheel:oCMobInter:oCMOB:zCVob", mk<VWheel>},
		    {T::oCMobContainer, "oCMobContainer:oCMobInter:oCMOB:zCVob", mk<VContainer>},
		    {T::oCMobDoor, "oCMobDoor:oCMobInter:oCMOB:zCVob", mk<VDoor>},
		    {T::zCPFXController, "zCPFXControler:zCVob", mk<VParticleEffectController>},
		    {T::zCVobAnimate, "zCVobAnimate:zCVob", mk<VAnimate>},
		    {T::zCVobLensFlare, "zCVobLensFlare:zCVob", mk<VLensFlare>},
		    {T::zCVobLight, "zCVobLight:zCVob", mk<VLight>},
		    {T::zCVobSound, "zCVobSound:zCVob", mk<VSound>},
		    {T::zCVobSoundDaytime, "zCVobSoundDaytime:zCVobSound:zCVob", mk<VSoundDaytime>},
		    {T::oCZoneMusic, "oCZoneMusic:zCVob", mk<VZoneMusic>},
		    {T::oCZoneMusicDefault, "oCZoneMusicDefault:oCZoneMusic:zCVob", mk<VZoneMusicDefault>},
		    {T::zCZoneZFog, "zCZoneZFog:zCVob", mk<VZoneFog>},
		    {T::zCZoneZFogDefault, "zCZoneZFogDefault:zCZoneZFog:zCVob", mk<VZoneFogDefault>},
		    {T::zCZoneVobFarPlane, "zCZoneVobFarPlane:zCVob", mk<VZoneFarPlane>},
		    {T::zCZoneVobFarPlaneDefault, "zCZoneVobFarPlaneDefault:zCZoneVobFarPlane:zCVob", mk<VZoneFarPlaneDefault>},
		    {T::zCMessageFilter, "zCMessageFilter:zCVob", mk<VMessageFilter>},
		    {T::zCCodeMaster, "zCCodeMaster:zCVob", mk<VCodeMaster>},
		    {T::zCTrigger, "zCTrigger:zCVob", mk<VTrigger>},
		    {T::zCTriggerList, "zCTriggerList:zCTrigger:zCVob", mk<VTriggerList>},
		    {T::oCTriggerScript, "oCTriggerScript:zCTrigger:zCVob", mk<VTriggerScript>},
		    {T::oCTriggerChangeLevel, "oCTriggerChangeLevel:zCTrigger:zCVob", mk<VTriggerChangeLevel>},
		    {T::oCCSTrigger, "oCCSTrigger:zCTrigger:zCVob", mk<VCutsceneTrigger>},
		    {T::zCMover, "zCMover:zCTrigger:zCVob", mk<VMover>},
		    {T::zCTriggerWorldStart, "zCTriggerWorldStart:zCVob", mk<VTriggerWorldStart>},
		    {T::zCTriggerUntouch, "zCTriggerUntouch:zCVob", mk<VTriggerUntouch>},
		    {T::zCCSCamera, "zCCSCamera:zCVob", mk<VCutsceneCamera>},
		    {T::zCCamTrj_KeyFrame, "zCCamTrj_KeyFrame:zCVob", mk<VCameraTrajectoryFrame>},
		    {T::oCTouchDamage, "oCTouchDamage:zCTouchDamage:zCVob", mk<VTouchDamage>},
		    {T::zCEarthquake, "zCEarthquake:zCVob", mk<VEarthquake>},
		    {T::zCMoverController, "zCMoverControler:zCVob", mk<VMoverController>},
		    // not virtual objects
		    {T::zCMaterial, "zCMaterial", mk<Material>},
		    {T::oCMsgConversation, "oCMsgConversation:oCNpcMessage:zCEventMessage", mk<ConversationMessageEvent>},
		    {T::zCCSAtomicBlock, "zCCSAtomicBlock", mk<CutsceneAtomicBlock>},
		    {T::zCCSBlock, "zCCSBlock", mk<CutsceneBlock>},
		    {T::zCCutscene, "zCCutscene:zCCSBlock", mk<Cutscene>},
		    {T::zCCSCutsceneContext, "zCCSCutsceneContext:zCCutscene:zCCSBlock", mk<CutsceneContext>},
		    {T::zCCSProps, "zCCSProps", mk<CutsceneProps>},
		    {T::zCWaypoint, "zCWaypoint", mk<WayPoint>},
		    {T::oCSavegameInfo, "oCSavegameInfo", mk<SaveMetadata>},
		    {T::oCCSManager, "oCCSManager:zCCSManager", mk<CutsceneManager>},
		    {T::zCCSPoolItem, "zCCSPoolItem", mk<CutscenePoolItem>},
		    {T::oCCSPlayer, "oCCSPlayer:zCCSPlayer", mk<CutscenePlayer>},
		    {T::zCSkyControler_Outdoor, "zCSkyControler_Outdoor", mk<SkyController>},
		    {T::oCNpcTalent, "oCNpcTalent", mk<VNpc::Talent>},
		    {T::zCEventManager, "zCEventManager", mk<EventManager>},
		    {T::oCAIHuman, "oCAIHuman:oCAniCtrl_Human:zCAIPlayer", mk<AiHuman>},
		    {T::oCAIVobMove, "oCAIVobMove", mk<AiMove>},
		    {T::zCDecal, "zCDecal", mk<VisualDecal>},
		    {T::zCMesh, "zCMesh", mk<VisualMesh>},
		    {T::zCProgMeshProto, "zCProgMeshProto", mk<VisualMultiResolutionMesh>},
		    {T::zCParticleFX, "zCParticleFX", mk<VisualParticleEffect>},
		    {T::zCAICamera, "zCAICamera", mk<VisualCamera>},
		    {T::zCModel, "zCModel", mk<VisualModel>},
		    {T::zCMorphMesh, "zCMorphMesh", mk<VisualMorphMesh>},
		};
		return c;
	}
	/// Version number each class is saved with, per game. Most are attested by original files (tests/samples); the others
	/// are the numbers the library is known to write files with.
	inline uint16_t version_of(std::string const& name, bool g2) {
		struct V { char const* name; uint16_t g1, g2; };
		static V const v[] {
		    {"zCVob", 12289, 52224}, {"zCVobLevelCompo", 12289, 52224}, {"zCVobSpot", 12289, 52224}, {"zCVobStair", 12289, 52224},
		    {"zCVobStartpoint", 12289, 52224}, {"zCVobScreenFX", 12289, 52224}, {"oCItem", 0, 0}, {"oCNpc", 52224, 29697},
		    {"oCMOB", 47105, 47105}, {"oCMobInter", 35585, 35585}, {"oCMobBed", 61440, 61440}, {"oCMobFire", 18433, 18433},
		    {"oCMobLadder", 35585, 35585}, {"oCMobSwitch", 35585, 35585}, {"oCMobWheel", 35585, 35585}, {"oCMobContainer", 64513, 64513},
		    {"oCMobDoor", 64513, 64513}, {"zCPFXControler", 12289, 52224}, {"zCVobAnimate", 12289, 52224}, {"zCVobLensFlare", 64704, 193},
		    {"zCVobLight", 46080, 39168}, {"zCVobSound", 12289, 12289}, {"zCVobSoundDaytime", 12289, 12289}, {"oCZoneMusic", 0, 0},
		    {"oCZoneMusicDefault", 0, 0}, {"zCZoneZFog", 64704, 5505}, {"zCZoneZFogDefault", 64704, 5505}, {"zCZoneVobFarPlane", 12289, 52224},
		    {"zCZoneVobFarPlaneDefault", 12289, 52224}, {"zCMessageFilter", 0, 0}, {"zCCodeMaster", 0, 0}, {"zCTrigger", 47105, 47105},
		    {"zCTriggerList", 59776, 5505}, {"oCTriggerScript", 24577, 24577}, {"oCTriggerChangeLevel", 24577, 24577}, {"oCCSTrigger", 24577, 24577},
		    {"zCMover", 39936, 39936}, {"zCTriggerWorldStart", 52224, 52224}, {"zCTriggerUntouch", 193, 193}, {"zCCSCamera", 30720, 33793},
		    {"zCCamTrj_KeyFrame", 12289, 31489}, {"oCTouchDamage", 36865, 36865}, {"zCEarthquake", 52224, 52224}, {"zCMoverControler", 0, 0},
		    {"zCMaterial", 17408, 39939}, {"oCMsgConversation", 0, 0}, {"zCCSAtomicBlock", 0, 0}, {"zCCSBlock", 0, 0},
		    {"zCCutscene", 0, 0}, {"zCCSCutsceneContext", 0, 0}, {"zCCSProps", 0, 0}, {"zCWaypoint", 0, 0},
		    {"oCSavegameInfo", 0, 0}, {"oCCSManager", 36865, 36865}, {"zCCSPoolItem", 0, 0}, {"oCCSPlayer", 36865, 36865},
		    {"zCSkyControler_Outdoor", 52417, 52417}, {"oCNpcTalent", 0, 64513}, {"zCEventManager", 0, 0}, {"oCAIHuman", 0, 36865},
		    {"oCAIVobMove", 0, 0}, {"zCDecal", 0, 53505}, {"zCMesh", 0, 0}, {"zCProgMeshProto", 0, 64513},
		    {"zCParticleFX", 0, 0}, {"zCAICamera", 0, 0}, {"zCModel", 0, 0}, {"zCMorphMesh", 0, 0},
		};
		auto cls = name.substr(0, name.find(':'));
		for (auto& x : v)
			if (cls == x.name) return g2 ? x.g2 : x.g1;
		throw std::logic_error("no version for " + name);
	}
	inline Class const& class_of(T t) {
		for (auto& c : classes()) if (c.type == t) return c;
		throw std::logic_error("unlisted class");
	}
	constexpr size_t VOB_CLASSES = 44;
	inline VisualType visual_type(T t) {
		switch (t) {
		case T::zCDecal: return VisualType::DECAL;
		case T::zCMesh: return VisualType::MESH;
		case T::zCProgMeshProto: return VisualType::MULTI_RESOLUTION_MESH;
		case T::zCParticleFX: return VisualType::PARTICLE_EFFECT;
		case T::zCAICamera: return VisualType::AI_CAMERA;
		case T::zCModel: return VisualType::MODEL;
		case T::zCMorphMesh: return VisualType::MORPH_MESH;
		default: return VisualType::UNKNOWN;
		}
	}

	template <class V> void visit(V& v, Object& o); // dispatch by class

	// ---------------------------------------------------------------- Gen
	struct Gen {
		static constexpr bool gen = true;
		pbt::Src& s;
		Ctx c;
		std::vector<std::shared_ptr<Object>> pool;  // finished objects
		std::vector<std::shared_ptr<Object>> open;  // objects being filled
		unsigned max_depth {2}, budget {10};
		bool share {true};
		Gen(pbt::Src& src, Ctx ctx) : s(src), c(ctx) {}

		std::string text() { return arch::gen_value_string(s, c.fmt); }
		float number() { return arch::gen_float(s); }
		void str(std::string const&, std::string& x) { x = text(); }
		void i32(std::string const&, int& x) { x = s.i32(); }
		void flt(std::string const&, float& x) { x = number(); }
		void byte(std::string const&, uint8_t& x) { x = s.u8(); }
		void boolean(std::string const&, bool& x) { x = s.flip(); }
		template <class E> void enm(std::string const&, E& x, unsigned n) { x = static_cast<E>(s.below(n)); }
		void color(std::string const&, Color& x) { x = Color {s.u8(), s.u8(), s.u8(), s.u8()}; }
		void vec3(std::string const&, Vec3& x) { x = {number(), number(), number()}; }
		void vec2(std::string const&, Vec2& x) { x = {number(), number()}; }
		void textvec2(std::string const&, Vec2& x) { x = {s.nice(), s.nice()}; }
		void bbox(std::string const&, AxisAlignedBoundingBox& x) { x = {{number(), number(), number()}, {number(), number(), number()}}; }
		void mat3(std::string const&, Mat3& x) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x[i][j] = number(); }
		void mat4raw(std::string const&, Mat4& x) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) x[i][j] = number(); }
		void ints_raw(std::string const&, int* p, size_t n) {
			for (size_t i = 0; i < n; ++i) p[i] = s.chance(1, n > 20 ? 8 : 2) ? s.i32() : 0;
		}
		template <class C> void count(std::string const&, C& v, unsigned max, arch::Kind = arch::INT) { v.clear(); v.resize(s.len(max)); }
		template <class Fn> void raw(std::string const&, Fn&&) {}
		void constant(arch::Item) {}

		std::shared_ptr<Object> build(T t) {
			auto o = class_of(t).make();
			open.push_back(o);
			visit(*this, *o);
			open.pop_back();
			pool.push_back(o);
			return o;
		}
		// kinds of references: own = may create; back = may also refer to objects still being filled
		std::shared_ptr<Object> make(std::vector<T> const& types, bool null_ok, bool back) {
			auto fits = [&](std::shared_ptr<Object> const& o) {
				for (auto t : types) if (o->get_object_type() == t) return true;
				return false;
			};
			if (null_ok && s.chance(1, 3)) return nullptr;
			if (share && s.chance(1, 4)) {
				std::vector<std::shared_ptr<Object>> f;
				for (auto& o : pool) if (fits(o)) f.push_back(o);
				if (back) for (auto& o : open) if (fits(o)) f.push_back(o);
				if (!f.empty()) return f[s.below(f.size())];
			}
			if (null_ok && (open.size() > max_depth || budget == 0)) return nullptr;
			if (budget) --budget;
			return build(types[s.below(types.size())]);
		}
		template <class O> void obj(std::string const&, std::shared_ptr<O>& p, std::vector<T> const& types, bool null_ok = true, bool back = false) {
			p = std::static_pointer_cast<O>(make(types, null_ok, back));
		}
		template <class O> void obj(std::string const&, std::weak_ptr<O>& p, std::vector<T> const& types, bool null_ok = true, bool back = true) {
			p = std::static_pointer_cast<O>(make(types, null_ok, back));
		}
	};

	// ---------------------------------------------------------------- Dump
	struct Dump {
		static constexpr bool gen = false;
		Ctx c;
		arch::Items out;
		std::map<Object const*, uint32_t> seen;
		uint32_t next {0};
		explicit Dump(Ctx ctx) : c(ctx) {}
		arch::Item& add(arch::Kind k, std::string const& n) { out.emplace_back(); out.back().k = k; out.back().name = n; return out.back(); }
		void str(std::string const& n, std::string const& x) { add(arch::STR, n).s = x; }
		void i32(std::string const& n, int x) { add(arch::INT, n).u = static_cast<uint32_t>(x); }
		void flt(std::string const& n, float x) { add(arch::FLT, n).f[0] = x; }
		void byte(std::string const& n, uint8_t x) { add(arch::BYTE, n).u = x; }
		void boolean(std::string const& n, bool x) { add(arch::BOOL, n).u = x; }
		template <class E> void enm(std::string const& n, E x, unsigned) { add(arch::ENUM, n).u = static_cast<uint32_t>(x); }
		void color(std::string const& n, Color x) { auto& i = add(arch::COLOR, n); i.c[0] = x.r; i.c[1] = x.g; i.c[2] = x.b; i.c[3] = x.a; }
		void vec3(std::string const& n, Vec3 x) { auto& i = add(arch::VEC3, n); i.f[0] = x.x; i.f[1] = x.y; i.f[2] = x.z; }
		void vec2(std::string const& n, Vec2 x) { auto& i = add(arch::VEC2, n); i.f[0] = x.x; i.f[1] = x.y; }
		void textvec2(std::string const& n, Vec2 x) { char b[100]; snprintf(b, sizeof b, "%.9g %.9g", x.x, x.y); add(arch::STR, n).s = b; }
		void bbox(std::string const& n, AxisAlignedBoundingBox const& x) {
			auto& i = add(arch::BBOX, n);
			float f[6] {x.min.x, x.min.y, x.min.z, x.max.x, x.max.y, x.max.z};
			for (int k = 0; k < 6; ++k) i.f[k] = f[k];
		}
		void mat3(std::string const& n, Mat3 const& x) { auto& i = add(arch::MAT3, n); for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) i.f[r * 3 + k] = x[k][r]; }
		void mat4raw(std::string const& n, Mat4 const& x) { Out o; for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) o.f32(x[k][r]); add(arch::RAW, n).raw = o.b; }
		void ints_raw(std::string const& n, int const* p, size_t cnt) { Out o; for (size_t i = 0; i < cnt; ++i) o.u32(static_cast<uint32_t>(p[i])); add(arch::RAW, n).raw = o.b; }
		template <class C> void count(std::string const& n, C& v, unsigned, arch::Kind k = arch::INT) { add(k, n).u = static_cast<uint32_t>(v.size()); }
		template <class Fn> void raw(std::string const& n, Fn&& fn) { Out o; fn(o); add(arch::RAW, n).raw = o.b; }
		void constant(arch::Item i) { out.push_back(std::move(i)); }

		void put(std::string const& n, Object* p) {
			if (p == nullptr) { auto& i = add(arch::OBJ, n); i.s = "%"; return; }
			if (auto it = seen.find(p); it != seen.end()) { auto& i = add(arch::REF, n); i.index = i.u = it->second; return; }
			arch::Item it;
			it.k = arch::OBJ;
			it.name = n;
			it.s = class_of(p->get_object_type()).name;
			it.u = version_of(it.s, c.g2());
			if (c.original && c.g2() && (it.s == "zCProgMeshProto" || it.s == "zCPFXControler:zCVob")) it.u = c.unknown; // several versions are attested
			it.index = next++;
			seen[p] = it.index;
			arch::Items save;
			save.swap(out);
			visit(*this, *p);
			it.kids.swap(out);
			out.swap(save);
			out.push_back(std::move(it));
		}
		template <class O> void obj(std::string const& n, std::shared_ptr<O>& p, std::vector<T> const&, bool = true, bool = false) { put(n, p.get()); }
		template <class O> void obj(std::string const& n, std::weak_ptr<O>& p, std::vector<T> const&, bool = true, bool = true) { put(n, p.lock().get()); }
	};

	// ---------------------------------------------------------------- classes
	inline std::vector<T> const VISUALS {T::zCDecal, T::zCMesh, T::zCProgMeshProto, T::zCParticleFX, T::zCAICamera, T::zCModel, T::zCMorphMesh};
	inline std::string num(std::string const& n, size_t i) { return n + std::to_string(i); }
	inline bool visible(VirtualObject const& o) { return o.visual && o.visual->type != VisualType::UNKNOWN; }
	inline std::string const& visual_name(VirtualObject const& o) { return visible(o) ? o.visual->name : o.visual_name; }

	template <class V> void rigid(V& v, RigidBody& o) {
		v.vec3("vel", o.vel);
		v.byte("mode", o.mode);
		v.boolean("gravOn", o.gravity_enabled);
		v.flt("gravScale", o.gravity_scale);
		v.vec3("slideDir", o.slide_direction);
	}
	inline void gen_base(Gen& v, VirtualObject& o) {
		auto& s = v.s;
		bool g2 = v.c.g2();
		auto name = [&] { return s.chance(1, 3) ? std::string() : v.text(); };
		v.bbox("", o.bbox);
		v.vec3("", o.position);
		v.mat3("", o.rotation);
		o.show_visual = s.flip();
		v.enm("", o.sprite_camera_facing_mode, 3);
		o.cd_static = s.flip();
		o.cd_dynamic = s.flip();
		o.vob_static = s.flip();
		v.enm("", o.dynamic_shadows, 2);
		if (g2) {
			v.enm("", o.anim_mode, 3);
			o.bias = v.c.packed ? static_cast<int>(s.below(32)) : s.i32();
			o.ambient = s.flip();
			o.anim_strength = v.number();
			o.far_clip_scale = v.number();
		}
		o.preset_name = name();
		o.vob_name = name();
		if (s.chance(1, 2)) {
			std::shared_ptr<Visual> vis;
			v.obj("", vis, VISUALS);
			if (vis && v.share) { // a visual carries the name of its object, do not share it between names
				vis = std::static_pointer_cast<Visual>(vis);
				bool used = false;
				for (auto& p : v.pool)
					if (is_vobject(p->get_object_type()) && static_cast<VirtualObject&>(*p).visual == vis) used = true;
				for (auto& p : v.open)
					if (is_vobject(p->get_object_type()) && static_cast<VirtualObject&>(*p).visual == vis) used = true;
				if (!used) vis->name = name();
			}
			o.visual = vis;
			if (vis) { vis->type = visual_type(vis->get_object_type()); o.visual_name = vis->name; }
		}
		if (!o.visual) o.visual_name = name();
		if (s.chance(1, 6)) v.obj("", o.ai, {T::oCAIHuman, T::oCAIVobMove});
		o.physics_enabled = s.flip();
		if (v.c.save) {
			if (v.c.packed && s.chance(1, 5)) v.obj("", o.event_manager, {T::zCEventManager});
			o.sleep_mode = s.u8();
			o.next_on_timer = v.number();
			if (o.physics_enabled) rigid(v, o.rigid_body.emplace());
		}
	}
	template <class V> void base(V& v, VirtualObject& o) {
		if constexpr (V::gen) { gen_base(v, o); return; }
		else {
			auto const& vn = visual_name(o);
			bool g2 = v.c.g2(), vis = visible(o);
			v.i32("pack", v.c.packed);
			if (v.c.packed) {
				v.raw("dataRaw", [&](Out& b) {
					auto v3 = [&](Vec3 const& x) { b.f32(x.x).f32(x.y).f32(x.z); };
					v3(o.bbox.min), v3(o.bbox.max), v3(o.position);
					for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) b.f32(o.rotation[k][r]);
					b.u8(o.show_visual | unsigned(o.sprite_camera_facing_mode) << 1 | o.cd_static << 3 | o.cd_dynamic << 4 | o.vob_static << 5 | unsigned(o.dynamic_shadows) << 6);
					unsigned f = !o.preset_name.empty() | !o.vob_name.empty() << 1 | !vn.empty() << 2 | vis << 3 | bool(o.ai) << 4 |
					    (v.c.save && bool(o.event_manager)) << 5 | (o.physics_enabled && (!v.c.save || o.rigid_body)) << 6;
					if (g2) b.u16(f | unsigned(o.anim_mode) << 7 | (o.bias & 31) << 9 | o.ambient << 14 | (v.c.unknown & 0x8000)).f32(o.anim_strength).f32(o.far_clip_scale);
					else b.u8(f | (v.c.unknown & 0x80));
				});
				if (!o.preset_name.empty()) v.str("presetName", o.preset_name);
				if (!o.vob_name.empty()) v.str("vobName", o.vob_name);
				if (!vn.empty()) v.str("visual", vn);
			} else {
				v.str("presetName", o.preset_name);
				v.bbox("bbox3DWS", o.bbox);
				v.mat3("trafoOSToWSRot", o.rotation);
				v.vec3("trafoOSToWSPos", o.position);
				v.str("vobName", o.vob_name);
				v.str("visual", vn);
				v.boolean("showVisual", o.show_visual);
				v.enm("visualCamAlign", o.sprite_camera_facing_mode, 3);
				if (g2) {
					v.enm("visualAniMode", o.anim_mode, 3);
					v.flt("visualAniModeStrength", o.anim_strength);
					v.flt("vobFarClipZScale", o.far_clip_scale);
				}
				v.boolean("cdStatic", o.cd_static);
				v.boolean("cdDyn", o.cd_dynamic);
				v.boolean("staticVob", o.vob_static);
				v.enm("dynShadow", o.dynamic_shadows, 2);
				if (g2) {
					v.i32("zbias", o.bias);
					v.boolean("isAmbient", o.ambient);
				}
			}
			if (vis || !v.c.packed) v.put("visual", vis ? o.visual.get() : nullptr);
			if (o.ai || !v.c.packed) v.put("ai", o.ai.get());
			if (o.event_manager && v.c.packed && v.c.save) v.put("%", o.event_manager.get());
			if (v.c.save) {
				v.byte("sleepMode", o.sleep_mode);
				v.flt("nextOnTimer", o.next_on_timer);
				if (o.physics_enabled && o.rigid_body) rigid(v, *o.rigid_body);
			}
		}
	}
	template <class V> void fields(V& v, VisualDecal& o) {
		v.str("name", o.name);
		v.vec2("decalDim", o.dimension);
		v.vec2("decalOffset", o.offset);
		v.boolean("decal2Sided", o.two_sided);
		v.enm("decalAlphaFunc", o.alpha_func, 7);
		v.flt("decalTexAniFPS", o.texture_anim_fps);
		if (v.c.g2()) {
			v.byte("decalAlphaWeight", o.alpha_weight);
			v.boolean("ignoreDayLight", o.ignore_daylight);
		}
	}
	template <class V> void fields(V& v, EventManager& o) {
		v.boolean("cleared", o.cleared);
		v.boolean("active", o.active);
		v.obj("emCutscene", o.cutscene, {T::zCCSCutsceneContext});
	}
	inline std::vector<T> const ANY_VOB {T::zCVob, T::oCItem, T::oCNpc, T::zCVobLight, T::zCVobSpot, T::oCMobDoor};
	template <class V> void fields(V& v, AiHuman& o) {
		v.i32("waterLevel", o.water_level);
		v.flt("floorY", o.floor_y);
		v.flt("waterY", o.water_y);
		v.flt("ceilY", o.ceil_y);
		v.flt("feetY", o.feet_y);
		v.flt("headY", o.head_y);
		v.flt("fallDistY", o.fall_dist_y);
		v.flt("fallStartY", o.fall_start_y);
		v.obj("aiNpc", o.npc, {T::oCNpc});
		v.i32("walkMode", o.walk_mode);
		v.i32("weaponMode", o.weapon_mode);
		v.i32("wmodeLast", o.wmode_ast);
		v.i32("wmodeSelect", o.wmode_select);
		v.boolean("changeWeapon", o.change_weapon);
		v.i32("actionMode", o.action_mode);
	}
	template <class V> void fields(V& v, AiMove& o) {
		v.obj("vob", o.vob, ANY_VOB);
		v.obj("owner", o.owner, {T::oCNpc});
	}
	template <class V> void fields(V& v, VCameraTrajectoryFrame& o) {
		base(v, o);
		v.flt("time", o.time);
		v.flt("angleRollDeg", o.roll_angle);
		v.flt("camFOVScale", o.fov_scale);
		v.enm("motionType", o.motion_type, 7);
		v.enm("motionTypeFOV", o.motion_type_fov, 7);
		v.enm("motionTypeRoll", o.motion_type_roll, 7);
		v.enm("motionTypeTimeScale", o.motion_type_time_scale, 7);
		v.flt("tension", o.tension);
		v.flt("bias", o.cam_bias);
		v.flt("continuity", o.continuity);
		v.flt("timeScale", o.time_scale);
		v.boolean("timeIsFixed", o.time_fixed);
		v.mat4raw("originalPose", o.original_pose);
	}
	template <class V> void fields(V& v, VCutsceneCamera& o) {
		base(v, o);
		v.enm("camTrjFOR", o.trajectory_for, 2);
		v.enm("targetTrjFOR", o.target_trajectory_for, 2);
		v.enm("loopMode", o.loop_mode, 3);
		v.enm("splLerpMode", o.lerp_mode, 4);
		v.boolean("ignoreFORVobRotCam", o.ignore_for_vob_rotation);
		v.boolean("ignoreFORVobRotTarget", o.ignore_for_vob_rotation_target);
		v.boolean("adaptToSurroundings", o.adapt);
		v.boolean("easeToFirstKey", o.ease_first);
		v.boolean("easeFromLastKey", o.ease_last);
		v.flt("totalTime", o.total_duration);
		v.str("autoCamFocusVobName", o.auto_focus_vob);
		v.boolean("autoCamPlayerMovable", o.auto_player_movable);
		v.boolean("autoCamUntriggerOnLastKey", o.auto_untrigger_last);
		v.flt("autoCamUntriggerOnLastKeyDelay", o.auto_untrigger_last_delay);
		v.count("numPos", o.trajectory_frames, 3);
		v.count("numTargets", o.target_frames, 3);
		if constexpr (V::gen) {
			o.position_count = static_cast<int>(o.trajectory_frames.size());
			o.target_count = static_cast<int>(o.target_frames.size());
		}
		for (auto& f : o.trajectory_frames) v.obj("%", f, {T::zCCamTrj_KeyFrame}, false);
		for (auto& f : o.target_frames) v.obj("%", f, {T::zCCamTrj_KeyFrame}, false);
		if (v.c.save && v.c.g2()) {
			v.boolean("paused", o.paused);
			v.boolean("started", o.started);
			v.boolean("gotoTimeMode", o.goto_time_mode);
			v.flt("csTime", o.cs_time);
		}
	}
	template <class V> void fields(V& v, VLight& o) {
		base(v, o);
		v.str("lightPresetInUse", o.preset);
		v.enm("lightType", o.light_type, 4);
		v.flt("range", o.range);
		v.color("color", o.color);
		v.flt("spotConeAngle", o.cone_angle);
		v.boolean("lightStatic", o.is_static);
		v.enm("lightQuality", o.quality, 3);
		v.str("lensflareFX", o.lensflare_fx);
		if (o.is_static) return;
		v.boolean("turnedOn", o.on);
		if constexpr (V::gen) {
			o.range_animation_scale.clear();
			for (auto n = v.s.len(5); n; --n) o.range_animation_scale.push_back(v.s.nice());
			o.color_animation_list.clear();
			for (auto n = v.s.len(5); n; --n) o.color_animation_list.push_back(Color {v.s.u8(), v.s.u8(), v.s.u8(), 255});
		} else {
			std::string r;
			char b[64];
			for (auto x : o.range_animation_scale) { snprintf(b, sizeof b, "%g ", x); r += b; }
			v.str("rangeAniScale", r);
		}
		v.flt("rangeAniFPS", o.range_animation_fps);
		v.boolean("rangeAniSmooth", o.range_animation_smooth);
		if constexpr (!V::gen) {
			std::string r;
			char b[64];
			for (auto x : o.color_animation_list) {
				if (v.c.original && x.r == x.g && x.g == x.b) snprintf(b, sizeof b, "%d ", x.r);
				else snprintf(b, sizeof b, "(%d %d %d) ", x.r, x.g, x.b);
				r += b;
			}
			v.str("colorAniList", r);
		}
		v.flt("colorAniFPS", o.color_animation_fps);
		v.boolean("colorAniSmooth", o.color_animation_smooth);
		if (v.c.g2()) v.boolean("canMove", o.can_move);
	}
	template <class V> void fields(V& v, VMovableObject& o) {
		base(v, o);
		v.str("focusName", o.name);
		v.i32("hitpoints", o.hp);
		v.i32("damage", o.damage);
		v.boolean("moveable", o.movable);
		v.boolean("takeable", o.takable);
		v.boolean("focusOverride", o.focus_override);
		v.enm("soundMaterial", o.material, 6);
		v.str("visualDestroyed", o.visual_destroyed);
		v.str("owner", o.owner);
		v.str("ownerGuild", o.owner_guild);
		v.boolean("isDestroyed", o.destroyed);
	}
	template <class V> void fields(V& v, VInteractiveObject& o) {
		fields(v, static_cast<VMovableObject&>(o));
		v.i32("stateNum", o.state_count);
		v.str("triggerTarget", o.target);
		v.str("useWithItem", o.item);
		v.str("conditionFunc", o.condition_function);
		v.str("onStateFunc", o.on_state_change_function);
		v.boolean("rewind", o.rewind);
	}
	template <class V> void fields(V& v, VFire& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.str("fireSlot", o.slot);
		v.str("fireVobtreeName", o.vob_tree);
	}
	template <class V> void fields(V& v, VDoor& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.boolean("locked", o.locked);
		v.str("keyInstance", o.key);
		v.str("pickLockStr", o.pick_string);
	}
	template <class V> void fields(V& v, VContainer& o) {
		fields(v, static_cast<VInteractiveObject&>(o));
		v.boolean("locked", o.locked);
		v.str("keyInstance", o.key);
		v.str("pickLockStr", o.pick_string);
		v.str("contains", o.contents);
		if (v.c.save) {
			v.count("NumOfEntries", o.s_items, 3);
			for (auto& i : o.s_items) v.obj("%", i, {T::oCItem});
		}
	}
	template <class V> void fields(V& v, VSound& o) {
		base(v, o);
		v.flt("sndVolume", o.volume);
		v.enm("sndMode", o.mode, 3);
		v.flt("sndRandDelay", o.random_delay);
		v.flt("sndRandDelayVar", o.random_delay_var);
		v.boolean("sndStartOn", o.initially_playing);
		v.boolean("sndAmbient3D", o.ambient3d);
		v.boolean("sndObstruction", o.obstruction);
		v.flt("sndConeAngle", o.cone_angle);
		v.enm("sndVolType", o.volume_type, 2);
		v.flt("sndRadius", o.radius);
		v.str("sndName", o.sound_name);
		if (v.c.save) {
			v.boolean("soundIsRunning", o.s_is_running);
			v.boolean("soundAllowedToRun", o.s_is_allowed_to_run);
		}
	}
	template <class V> void fields(V& v, VSoundDaytime& o) {
		fields(v, static_cast<VSound&>(o));
		v.flt("sndStartTime", o.start_time);
		v.flt("sndEndTime", o.end_time);
		v.str("sndName2", o.sound_name2);
	}
	template <class V> void fields(V& v, VTrigger& o) {
		base(v, o);
		v.str("triggerTarget", o.target);
		if constexpr (V::gen) {
			o.flags = v.s.u8();
			o.filter_flags = v.s.u8();
			o.start_enabled = o.flags & 1, o.send_untrigger = o.flags & 4;
			o.react_to_on_trigger = o.filter_flags & 1, o.react_to_on_touch = o.filter_flags & 2, o.react_to_on_damage = o.filter_flags & 4;
			o.respond_to_object = o.filter_flags & 8, o.respond_to_pc = o.filter_flags & 16, o.respond_to_npc = o.filter_flags & 32;
		} else {
			v.raw("flags", [&](Out& b) { b.u8(o.flags); });
			v.raw("filterFlags", [&](Out& b) { b.u8(o.filter_flags); });
			unsigned a = o.start_enabled | o.send_untrigger << 2;
			unsigned f = o.react_to_on_trigger | o.react_to_on_touch << 1 | o.react_to_on_damage << 2 | o.respond_to_object << 3 | o.respond_to_pc << 4 | o.respond_to_npc << 5;
			CHECK("trigger-flags", a == (o.flags & 5u) && f == (o.filter_flags & 63u), "the trigger's switches do not match its flags " << unsigned(o.flags) << "/" << unsigned(o.filter_flags));
		}
		v.str("respondToVobName", o.vob_target);
		v.i32("numCanBeActivated", o.max_activation_count);
		v.flt("retriggerWaitSec", o.retrigger_delay_sec);
		v.flt("damageThreshold", o.damage_threshold);
		v.flt("fireDelaySec", o.fire_delay_sec);
		if (v.c.save) {
			v.flt("nextTimeTriggerable", o.s_next_time_triggerable);
			v.obj("savedOtherVob", o.s_other_vob, ANY_VOB, true, true);
			v.i32("countCanBeActivated", o.s_count_can_be_activated);
			if (v.c.g2()) v.boolean("isEnabled", o.s_is_enabled);
		}
	}
	template <class V> void fields(V& v, VMover& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.enm("moverBehavior", o.behavior, 5);
		v.flt("touchBlockerDamage", o.touch_blocker_damage);
		v.flt("stayOpenTimeSec", o.stay_open_time_sec);
		v.boolean("moverLocked", o.locked);
		v.boolean("autoLinkEnabled", o.auto_link);
		if (v.c.g2()) v.boolean("autoRotate", o.auto_rotate);
		v.count("numKeyframes", o.keyframes, 4, arch::WORD);
		if (!o.keyframes.empty()) {
			v.flt("moveSpeed", o.speed);
			v.enm("posLerpType", o.lerp_mode, 2);
			v.enm("speedType", o.speed_mode, 7);
			if constexpr (V::gen) {
				for (auto& k : o.keyframes) {
					v.vec3("", k.position);
					k.rotation = Quat {v.number(), v.number(), v.number(), v.number()};
				}
			} else v.raw("keyframes", [&](Out& b) {
				for (auto& k : o.keyframes) b.f32(k.position.x).f32(k.position.y).f32(k.position.z).f32(k.rotation.x).f32(k.rotation.y).f32(k.rotation.z).f32(k.rotation.w);
			});
		}
		if (v.c.save) {
			v.vec3("actKeyPosDelta", o.s_act_key_pos_delta);
			v.flt("actKeyframeF", o.s_act_keyframe_f);
			v.i32("actKeyframe", o.s_act_keyframe);
			v.i32("nextKeyframe", o.s_next_keyframe);
			v.flt("moveSpeedUnit", o.s_move_speed_unit);
			v.flt("advanceDir", o.s_advance_dir);
			v.enm("moverState", o.s_mover_state, 256);
			v.i32("numTriggerEvents", o.s_trigger_event_count);
			v.flt("stayOpenTimeDest", o.s_stay_open_time_dest);
		}
		v.str("sfxOpenStart", o.sfx_open_start);
		v.str("sfxOpenEnd", o.sfx_open_end);
		v.str("sfxMoving", o.sfx_transitioning);
		v.str("sfxCloseStart", o.sfx_close_start);
		v.str("sfxCloseEnd", o.sfx_close_end);
		v.str("sfxLock", o.sfx_lock);
		v.str("sfxUnlock", o.sfx_unlock);
		v.str("sfxUseLocked", o.sfx_use_locked);
	}
	template <class V> void fields(V& v, VTriggerList& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.enm("listProcess", o.mode, 3);
		v.count("numTarget", o.targets, 4, arch::BYTE);
		for (size_t i = 0; i < o.targets.size(); ++i) {
			v.str(num("triggerTarget", i), o.targets[i].name);
			v.flt(num("fireDelay", i), o.targets[i].delay);
		}
		if (v.c.save) {
			v.byte("actTarget", o.s_act_target);
			v.boolean("sendOnTrigger", o.s_send_on_trigger);
		}
	}
	template <class V> void fields(V& v, VTriggerScript& o) { fields(v, static_cast<VTrigger&>(o)); v.str("scriptFunc", o.function); }
	template <class V> void fields(V& v, VTriggerChangeLevel& o) {
		fields(v, static_cast<VTrigger&>(o));
		v.str("levelName", o.level_name);
		v.str("startVobName", o.start_vob);
	}
	template <class V> void fields(V& v, VTriggerWorldStart& o) {
		base(v, o);
		v.str("triggerTarget", o.target);
		v.boolean("fireOnlyFirstTime", o.fire_once);
		if (v.c.save && v.c.g2()) v.boolean("hasFired", o.s_has_fired);
	}
	template <class V> void fields(V& v, VTriggerUntouch& o) { base(v, o); v.str("triggerTarget", o.target); }
	template <class V> void fields(V& v, VZoneMusic& o) {
		base(v, o);
		v.boolean("enabled", o.enabled);
		v.i32("priority", o.priority);
		v.boolean("ellipsoid", o.ellipsoid);
		v.flt("reverbLevel", o.reverb);
		v.flt("volumeLevel", o.volume);
		v.boolean("loop", o.loop);
		if (v.c.save) {
			v.boolean("local_enabled", o.s_local_enabled);
			v.boolean("dayEntranceDone", o.s_day_entrance_done);
			v.boolean("nightEntranceDone", o.s_night_entrance_done);
		}
	}
	template <class V> void fields(V& v, VZoneFarPlane& o) {
		base(v, o);
		v.flt("vobFarPlaneZ", o.vob_far_plane_z);
		v.flt("innerRangePerc", o.inner_range_percentage);
	}
	template <class V> void fields(V& v, VZoneFog& o) {
		base(v, o);
		v.flt("fogRangeCenter", o.range_center);
		v.flt("innerRangePerc", o.inner_range_percentage);
		v.color("fogColor", o.color);
		if (v.c.g2()) {
			v.boolean("fadeOutSky", o.fade_out_sky);
			v.boolean("overrideColor", o.override_color);
		}
	}
	template <class V> void fields(V& v, VAnimate& o) {
		base(v, o);
		v.boolean("startOn", o.start_on);
		if (v.c.save) v.boolean("isRunning", o.s_is_running);
	}
	template <class V> void fields(V& v, VItem& o) {
		base(v, o);
		v.str("itemInstance", o.instance);
		if (v.c.save) {
			v.i32("amount", o.s_amount);
			v.i32("flags", o.s_flags);
		}
	}
	template <class V> void fields(V& v, VLensFlare& o) { base(v, o); v.str("lensflareFX", o.fx); }
	template <class V> void fields(V& v, VParticleEffectController& o) {
		base(v, o);
		v.str("pfxName", o.pfx_name);
		v.boolean("killVobWhenDone", o.kill_when_done);
		v.boolean("pfxStartOn", o.initially_running);
	}
	template <class V> void fields(V& v, VMessageFilter& o) {
		base(v, o);
		v.str("triggerTarget", o.target);
		v.enm("onTrigger", o.on_trigger, 6);
		v.enm("onUntrigger", o.on_untrigger, 6);
	}
	template <class V> void fields(V& v, VCodeMaster& o) {
		base(v, o);
		v.str("triggerTarget", o.target);
		v.boolean("orderRelevant", o.ordered);
		v.boolean("firstFalseIsFailure", o.first_false_is_failure);
		v.str("triggerTargetFailure", o.failure_target);
		v.boolean("untriggerCancels", o.untriggered_cancels);
		v.count("numSlaves", o.slaves, 4, arch::BYTE);
		for (size_t i = 0; i < o.slaves.size(); ++i) v.str(num("slaveVobName", i), o.slaves[i]);
		if (v.c.save && v.c.g2()) {
			v.byte("numSlavesTriggered", o.s_num_triggered_slaves);
			std::shared_ptr<Object> null;
			if constexpr (!V::gen)
				for (size_t i = 0; i < o.slaves.size(); ++i) v.put(num("slaveTriggered", i), nullptr);
		}
	}
	template <class V> void fields(V& v, VMoverController& o) {
		base(v, o);
		v.str("triggerTarget", o.target);
		v.enm("moverMessage", o.message, 4);
		v.i32("gotoFixedKey", o.key);
	}
	template <class V> void fields(V& v, VTouchDamage& o) {
		base(v, o);
		v.flt("damage", o.damage);
		v.boolean("Barrier", o.barrier);
		v.boolean("Blunt", o.blunt);
		v.boolean("Edge", o.edge);
		v.boolean("Fire", o.fire);
		v.boolean("Fly", o.fly);
		v.boolean("Magic", o.magic);
		v.boolean("Point", o.point);
		v.boolean("Fall", o.fall);
		v.flt("damageRepeatDelaySec", o.repeat_delay_sec);
		v.flt("damageVolDownScale", o.volume_scale);
		v.enm("damageCollType", o.collision, 3);
	}
	template <class V> void fields(V& v, VEarthquake& o) {
		base(v, o);
		v.flt("radius", o.radius);
		v.flt("timeSec", o.duration);
		v.vec3("amplitudeCM", o.amplitude);
	}
	template <class V> void fields(V& v, VScreenEffect& o) {
		base(v, o);
		if constexpr (!V::gen) {
			if (v.c.save) { // contents unknown to the library: zeros
				auto zeros = [&](char const* n) { v.raw(n, [&](Out& b) { for (int i = 0; i < (v.c.g2() ? 12 : 5); ++i) b.u32(v.c.unknown); }); };
				zeros("blend"), zeros("cinema"), zeros("fovMorph");
				v.vec2("fovSaved", {});
				v.vec2("fovSaved1st", {});
			}
		}
	}
	template <class V> void fields(V& v, VNpc::Talent& o) {
		v.i32("talent", o.talent);
		v.i32("value", o.value);
		v.i32("skill", o.skill);
	}
	template <class V> void fields(V& v, VNpc& o) {
		base(v, o);
		bool g2 = v.c.g2();
		v.str("npcInstance", o.npc_instance);
		v.vec3("modelScale", o.model_scale);
		v.flt("modelFatness", o.model_fatness);
		v.count("numOverlays", o.overlays, 3);
		for (auto& x : o.overlays) v.str("overlay", x);
		v.i32("flags", o.flags);
		v.i32("guild", o.guild);
		v.i32("guildTrue", o.guild_true);
		v.i32("level", o.level);
		v.i32("xp", o.xp);
		v.i32("xpnl", o.xp_next_level);
		v.i32("lp", o.lp);
		v.count("numTalents", o.talents, 3);
		for (auto& t : o.talents) v.obj("%", t, {T::oCNpcTalent});
		v.i32("fightTactic", o.fight_tactic);
		v.i32("fightMode", o.fight_mode);
		v.boolean("wounded", o.wounded);
		v.boolean("mad", o.mad);
		v.i32("madTime", o.mad_time);
		v.boolean("player", o.player);
		for (size_t i = 0; i < 8; ++i) v.i32(num("atr", i), o.attributes[i]);
		if (g2) for (size_t i = 0; i < 4; ++i) v.i32(num("hc", i + 1), o.hit_chance[i]);
		for (size_t i = 0; i < 5; ++i) v.i32(num("mission", i), o.missions[i]);
		v.str("startAIState", o.start_ai_state);
		v.ints_raw("scriptVars", o.aivar, g2 ? 100 : 50);
		v.str("scriptWp", o.script_waypoint);
		v.i32("attitude", o.attitude);
		v.i32("tmpAttitude", o.attitude_temp);
		v.i32("nameNr", o.name_nr);
		v.raw("spells", [&](Out& b) { b.u32(v.c.unknown); });
		v.count("NumOfEntries", o.news, 2);
		for (auto& n : o.news) {
			if constexpr (V::gen) n = std::make_unique<VNpc::News>();
			v.boolean("told", n->told);
			v.flt("spread_time", n->spread_time);
			auto put = [&](char const* name, auto& e, int g) {
				if constexpr (V::gen) e = static_cast<std::remove_reference_t<decltype(e)>>(g);
				else v.i32(name, static_cast<int>(e));
			};
			if constexpr (V::gen) put("", n->spread_type, static_cast<int>(v.s.below(5))), put("", n->news_id, v.s.pick({200, 195, 190, 185, 180, 175, 170}));
			else put("spreadType", n->spread_type, 0), put("news_id", n->news_id, 0);
			v.boolean("gossip", n->gossip);
			v.boolean("guildvictim", n->guild_victim);
			v.str("witnessName", n->witness_name);
			v.str("offenderName", n->offender_name);
			v.str("victimName", n->victim_name);
		}
		v.obj("carryVob", o.carry_vob, ANY_VOB, true, true);
		v.obj("enemy", o.enemy, ANY_VOB, true, true);
		v.boolean("moveLock", o.move_lock);
		if constexpr (V::gen) {
			for (auto& p : o.packed) {
				p = v.s.chance(1, 3) ? "" : v.text();
				if (g2) for (auto& ch : p) if (ch == ';') ch = ',';
			}
		} else if (g2) {
			std::string all;
			for (size_t i = 0; i < 9; ++i) all += (i ? ";" : "") + o.packed[i];
			if (v.c.original) while (!all.empty() && all.back() == ';') all.pop_back();
			v.str("packed", all);
		} else for (auto& p : o.packed) v.str("packed", p);
		v.count("itemCount", o.items, 3);
		for (size_t i = 0; i < o.items.size(); ++i) {
			v.obj(num("item", i), o.items[i], {T::oCItem}, false);
			if constexpr (!V::gen) { if (v.c.save && (o.items[i]->s_flags & 0x200)) v.i32(num("shortKey", i), static_cast<int>(v.c.unknown)); }
		}
		v.count("numInvSlots", o.slots, 3);
		for (auto& sl : o.slots) {
			if constexpr (V::gen) sl = std::make_unique<VNpc::Slot>();
			v.boolean("used", sl->used);
			v.str("name", sl->name);
			if (sl->used) {
				v.obj("vob", sl->item, {T::oCItem});
				v.boolean("inInv", sl->in_inventory);
			}
		}
		v.boolean("curState.valid", o.current_state_valid);
		v.str("curState.name", o.current_state_name);
		v.i32("curState.prgIndex", o.current_state_index);
		v.boolean("curState.isRtnState", o.current_state_is_routine);
		v.boolean("nextState.valid", o.next_state_valid);
		v.str("nextState.name", o.next_state_name);
		v.i32("nextState.prgIndex", o.next_state_index);
		v.boolean("nextState.isRtnState", o.next_state_is_routine);
		v.i32("lastAIState", o.last_ai_state);
		v.boolean("hasRoutine", o.has_routine);
		v.boolean("rtnChanged", o.routine_changed);
		v.boolean("rtnOverlay", o.routine_overlay);
		v.i32("rtnOverlayCount", o.routine_overlay_count);
		v.i32("walkmode_routine", o.walkmode_routine);
		v.boolean("weaponmode_routine", o.weaponmode_routine);
		v.boolean("startNewRoutine", o.start_new_routine);
		v.i32("aiStateDriven", o.ai_state_driven);
		v.vec3("aiStatePos", o.ai_state_pos);
		v.str("curRoutine", o.current_routine);
		v.boolean("respawn", o.respawn);
		v.i32("respawnTime", o.respawn_time);
		v.ints_raw("protection", o.protection, 8);
		if (g2) {
			v.i32("bsInterruptableOverride", o.bs_interruptable_override);
			v.i32("npcType", o.npc_type);
			v.i32("spellMana", o.spell_mana);
		}
	}
	template <class V> void fields(V& v, Material& o) {
		v.str("name", o.name);
		if constexpr (V::gen) o.group = v.s.chance(1, 8) ? MaterialGroup::NONE : static_cast<MaterialGroup>(v.s.below(7));
		else v.enm("matGroup", o.group, 0);
		v.color("color", o.color);
		v.flt("smoothAngle", o.smooth_angle);
		v.str("texture", o.texture);
		v.textvec2("texScale", o.texture_scale);
		v.flt("texAniFPS", o.texture_anim_fps);
		v.enm("texAniMapMode", o.texture_anim_map_mode, 2);
		v.textvec2("texAniMapDir", o.texture_anim_map_dir);
		v.boolean("noCollDet", o.disable_collision);
		v.boolean("noLightmap", o.disable_lightmap);
		v.boolean("lodDontCollapse", o.dont_collapse);
		v.str("detailObject", o.detail_object);
		if (v.c.g2()) {
			v.flt("detailObjectScale", o.detail_object_scale);
			v.boolean("forceOccluder", o.force_occluder);
			v.boolean("environmentalMapping", o.environment_mapping);
			v.flt("environmentalMappingStrength", o.environment_mapping_strength);
			v.enm("waveMode", o.wave_mode, 8);
			v.enm("waveSpeed", o.wave_speed, 4);
			v.flt("waveMaxAmplitude", o.wave_max_amplitude);
			v.flt("waveGridSize", o.wave_grid_size);
			v.boolean("ignoreSunLight", o.ignore_sun);
			v.enm("alphaFunc", o.alpha_func, 7);
		}
		v.vec2("defaultMapping", o.default_mapping);
	}
	template <class V> void fields(V& v, ConversationMessageEvent& o) {
		v.enm("subType", o.type, 256);
		if (v.c.save) {
			v.boolean("highPriority", o.high_priority);
			v.boolean("inUse", o.used);
			v.boolean("deleted", o.deleted);
		}
		v.str("text", o.text);
		v.str("name", o.name);
	}
	template <class V> void fields(V& v, CutsceneAtomicBlock& o) { v.obj("%", o.message, {T::oCMsgConversation}); }
	template <class V> void fields(V& v, CutsceneBlock& o) {
		v.str("blockName", o.name);
		if constexpr (V::gen) {
			if (v.open.size() < 3 && v.s.chance(1, 3)) { std::shared_ptr<CutsceneBlock> b; v.obj("", b, {T::zCCSBlock}, false); o.block = b; }
			else { std::shared_ptr<CutsceneAtomicBlock> b; v.obj("", b, {T::zCCSAtomicBlock}, false); o.block = b; }
		} else {
			v.i32("numOfBlocks", 1);
			v.flt("subBlock0", 0);
			std::visit([&](auto& b) { v.put("%", b.get()); }, o.block);
		}
	}
	template <class V> void fields(V& v, CutsceneProps& o) {
		v.str("name", o.name);
		v.boolean("globalCutscene", o.global);
		v.boolean("csLoop", o.loop);
		v.boolean("hasToBeTriggerd", o.has_to_be_triggered);
		v.flt("distance", o.distance);
		v.flt("range", o.range);
		v.i32("numLockedBlocks", o.locked_block_count);
		v.enm("runBehaviour", o.run_behaviour, 256);
		v.i32("runBehaviourValue", o.run_behaviour_value);
		v.str("StageName", o.stage_name);
		v.str("scriptFuncOnStop", o.script_function_on_stop);
	}
	template <class V> void fields(V& v, CutsceneContext& o) {
		fields(v, static_cast<CutsceneBlock&>(o));
		v.obj("%", o.props, {T::zCCSProps});
		v.i32("numOfRoles", o.role_count);
		v.i32("numOfRoleVobs", o.role_vob_count);
		v.obj("%", o.npc, {T::oCNpc});
		v.obj("mainRoleVob", o.main_role, {T::oCNpc});
		v.boolean("isCutscene", o.is_cutscene);
		v.i32("reference", o.reference);
		v.i32("actualBlock", o.actual_block);
		v.obj("alt_stage", o.alt_stage, ANY_VOB);
		v.obj("stage", o.stage, ANY_VOB);
		v.boolean("wasTriggered", o.was_triggered);
	}
	template <class V> void fields(V& v, WayPoint& o) {
		v.str("wpName", o.name);
		v.i32("waterDepth", o.water_depth);
		v.boolean("underWater", o.under_water);
		v.vec3("position", o.position);
		v.vec3("direction", o.direction);
	}
	template <class V> void fields(V& v, SaveMetadata& o) {
		v.str("Title", o.title);
		v.str("WorldName", o.world);
		v.i32("TimeDay", o.time_day);
		v.i32("TimeHour", o.time_hour);
		v.i32("TimeMin", o.time_minute);
		v.str("SaveDate", o.save_date);
		v.i32("VersionMajor", o.version_major);
		v.i32("VersionMinor", o.version_minor);
		v.i32("PlayTimeSeconds", o.play_time_seconds);
		if (v.c.g2()) {
			v.i32("VersionPoint", o.version_point);
			v.i32("VersionInt", o.version_int);
			v.str("VersionAppName", o.version_app_name);
		}
	}
	template <class V> void fields(V& v, CutscenePoolItem& o) {
		v.str("itemName", o.name);
		v.enm("runBehaviour", o.run_behavior, 3);
		v.i32("runBehaviourValue", o.run_behavior_value);
		v.i32("numPlayed", o.times_played);
		v.i32("deactivated", o.deactivated);
		v.i32("flags", o.flags);
	}
	template <class V> void fields(V& v, CutsceneManager& o) {
		v.count("poolCount", o.pool_items, 3);
		for (auto& i : o.pool_items) v.obj("%", i, {T::zCCSPoolItem});
	}
	template <class V> void fields(V& v, CutscenePlayer& o) {
		v.i32("lastProcessDay", o.last_process_day);
		v.i32("lastProcessHour", o.last_process_hour);
		v.count("playListCount", o.playlists, 2);
		for (size_t i = 0; i < o.playlists.size(); ++i) v.obj(num("playContext", i), o.playlists[i], {T::zCCSCutsceneContext});
	}
	template <class V> void fields(V& v, SkyController& o) {
		v.flt("masterTime", o.master_time);
		v.flt("rainWeight", o.rain_weight);
		v.flt("rainStart", o.rain_start);
		v.flt("rainStop", o.rain_stop);
		v.flt("rainSctTimer", o.rain_sct_timer);
		v.flt("rainSndVol", o.rain_snd_vol);
		v.flt("dayCtr", o.day_ctr);
		if (v.c.g2()) {
			v.flt("fadeScale", o.fade_scale);
			v.boolean("renderLightning", o.render_lightning);
			v.boolean("isRaining", o.is_raining);
			v.i32("rainCtr", o.rain_ctr);
		}
	}
	// not an object of its own: the contents of SAVEDAT.SAV
	template <class V> void fields(V& v, SaveState& o) {
		v.i32("day", o.day);
		v.i32("hour", o.hour);
		v.i32("min", o.minute);
		v.count("NumOfEntries", o.infos, 4);
		for (auto& i : o.infos) {
			v.boolean("Told", i.told);
			v.str("InstName", i.name);
		}
		v.count("NumOfEntries", o.missions, 4);
		for (auto& m : o.missions) {
			v.str("name", m.name);
			v.i32("ID", m.id);
			v.boolean("Av", m.available);
			if constexpr (!V::gen) v.i32("NumInList", 0);
			v.i32("StatusIndex", m.status_index);
		}
		v.count("LOGMANAGERTOPICCOUNT", o.log, 4);
		for (auto& t : o.log) {
			v.str("TOPICDESCRIPTION", t.description);
			v.enm("TOPICSECTION", t.section, 2);
			v.enm("TOPICSTATUS", t.status, 5);
			v.count("LOGTOPICENTRYCOUNT", t.entries, 4);
			if constexpr (!V::gen) v.i32("LOGMANAGERENTRYCOUNT", static_cast<int>(t.entries.size()));
			for (auto& e : t.entries) v.str("ENTRYDESCRIPTION", e);
		}
		v.obj("%", o.cutscene_manager, {T::oCCSManager});
		v.count("numSymbols", o.symbols, 6);
		for (size_t i = 0; i < o.symbols.size(); ++i) {
			auto& y = o.symbols[i];
			v.str(num("symName", i), y.name);
			if (!v.c.g2()) {
				if constexpr (V::gen) y.values.resize(1);
				v.i32(num("symValue", i), y.values.at(0));
			} else {
				v.count(num("symName", i) + "cnt", y.values, 4);
				for (size_t j = 0; j < y.values.size(); ++j) v.i32(num(num("symValue", i) + "_", j), y.values[j]);
			}
		}
		if constexpr (V::gen) { for (auto& r : o.guild_attitudes) for (auto& x : r) x = v.s.chance(1, 60) ? v.s.u8() : 0; }
		else v.raw("guildTable", [&](Out& b) { for (auto& r : o.guild_attitudes) for (auto x : r) b.u8(x); });
	}

	template <class V> void visit(V& v, Object& o) {
		switch (o.get_object_type()) {
		case T::zCVob: case T::zCVobLevelCompo: case T::zCVobSpot: case T::zCVobStair: case T::zCVobStartpoint: base(v, static_cast<VirtualObject&>(o)); break;
#define K(t, c) case T::t: fields(v, static_cast<c&>(o)); break;
		K(zCVobScreenFX, VScreenEffect) K(oCItem, VItem) K(oCNpc, VNpc) K(oCMOB, VMovableObject) K(oCMobInter, VInteractiveObject)
		K(oCMobBed, VInteractiveObject) K(oCMobLadder, VInteractiveObject) K(oCMobSwitch, VInteractiveObject) K(oCMobWheel, VInteractiveObject)
		K(oCMobFire, VFire) K(oCMobContainer, VContainer) K(oCMobDoor, VDoor) K(zCPFXController, VParticleEffectController)
		K(zCVobAnimate, VAnimate) K(zCVobLensFlare, VLensFlare) K(zCVobLight, VLight) K(zCVobSound, VSound) K(zCVobSoundDaytime, VSoundDaytime)
		K(oCZoneMusic, VZoneMusic) K(oCZoneMusicDefault, VZoneMusic) K(zCZoneZFog, VZoneFog) K(zCZoneZFogDefault, VZoneFog)
		K(zCZoneVobFarPlane, VZoneFarPlane) K(zCZoneVobFarPlaneDefault, VZoneFarPlane) K(zCMessageFilter, VMessageFilter) K(zCCodeMaster, VCodeMaster)
		K(zCTrigger, VTrigger) K(oCCSTrigger, VTrigger) K(zCTriggerList, VTriggerList) K(oCTriggerScript, VTriggerScript) K(oCTriggerChangeLevel, VTriggerChangeLevel)
		K(zCMover, VMover) K(zCTriggerWorldStart, VTriggerWorldStart) K(zCTriggerUntouch, VTriggerUntouch) K(zCCSCamera, VCutsceneCamera)
		K(zCCamTrj_KeyFrame, VCameraTrajectoryFrame) K(oCTouchDamage, VTouchDamage) K(zCEarthquake, VEarthquake) K(zCMoverController, VMoverController)
		K(zCMaterial, Material) K(oCMsgConversation, ConversationMessageEvent) K(zCCSAtomicBlock, CutsceneAtomicBlock) K(zCCSBlock, CutsceneBlock)
		K(zCCutscene, CutsceneBlock) K(zCCSCutsceneContext, CutsceneContext) K(zCCSProps, CutsceneProps) K(zCWaypoint, WayPoint)
		K(oCSavegameInfo, SaveMetadata) K(oCCSManager, CutsceneManager) K(zCCSPoolItem, CutscenePoolItem) K(oCCSPlayer, CutscenePlayer)
		K(zCSkyControler_Outdoor, SkyController) K(oCNpcTalent, VNpc::Talent) K(zCEventManager, EventManager) K(oCAIHuman, AiHuman) K(oCAIVobMove, AiMove)
		K(zCDecal, VisualDecal)
#undef K
		default: break; // visuals without entries
		}
	}

	// ---------------------------------------------------------------- comparison
	inline int floats_of(arch::Kind k) {
		switch (k) { case arch::FLT: return 1; case arch::VEC2: return 2; case arch::VEC3: return 3; case arch::BBOX: return 6; case arch::MAT3: return 9; default: return 0; }
	}
	inline std::string brief(arch::Item const& i) {
		std::ostringstream o;
		arch::Items v {i};
		v[0].kids.clear();
		arch::describe(o, v);
		auto s = o.str();
		if (!s.empty()) s.pop_back();
		return s.substr(0, 160);
	}
	// Compares two dumps; `lossy`: floats went through decimal text.
	inline void same(arch::Items const& a, arch::Items const& b, bool lossy, std::string const& where, std::string const& key) {
		for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
			CHECK(key, i < a.size() && i < b.size(), where << ": expected " << a.size() << " entries, got " << b.size() << (i < a.size() ? "; missing " + brief(a[i]) : "; surplus " + brief(b[i])));
			auto &x = a[i], &y = b[i];
			bool ok = x.k == y.k && x.name == y.name && x.s == y.s && x.u == y.u && x.raw == y.raw && x.index == y.index && memcmp(x.c, y.c, 4) == 0;
			for (int n = 0; n < floats_of(x.k); ++n) ok = ok && arch::float_ok(lossy && x.k != arch::MAT3 ? ArchiveFormat::ASCII : ArchiveFormat::BINARY, x.f[n], y.f[n]);
			CHECK(key, ok, where << ": expected " << brief(x) << ", got " << brief(y));
			same(x.kids, y.kids, lossy, where + "/" + (x.name == "%" ? x.s.substr(0, 12) : x.name), key);
		}
	}
	inline Ctx gen_ctx(pbt::Src& s) {
		Ctx c;
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.save = s.flip();
		c.packed = c.save || !s.chance(1, 3);
		c.fmt = s.pick({ArchiveFormat::BINARY, ArchiveFormat::BINSAFE, ArchiveFormat::ASCII});
		return c;
	}
	inline std::string describe(Ctx const& c) {
		return std::string(c.g2() ? "g2" : "g1") + "/" + arch::fmt_name(c.fmt) + (c.save ? "/save" : "/world") + (c.packed ? "/packed" : "/unpacked");
	}
}
