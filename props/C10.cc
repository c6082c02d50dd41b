// C10: every serialisable class round-trips through every encoding.
#include "fields.hh"
#include "pbt.hh"
using namespace fld;

static T pick_class(pbt::Src& s) {
	auto& c = classes();
	return c[s.below(c.size())].type;
}
static void compare_loaded(pbt::Case& k, Ctx const& c, arch::Items const& want, Bytes const& file, bool sentinel, int32_t mark) {
	Exact buf {file};
	auto r = buf.open();
	auto ar = ReadArchive::from(r.get());
	CHECK("save-flag", ar->is_save_game() == c.save, "archive is " << (ar->is_save_game() ? "" : "not ") << "a save game");
	auto got = ar->read_object(c.g);
	CHECK("class", got != nullptr, "no object was loaded");
	Dump d {c};
	d.put("%", got.get());
	same(want, d.out, c.fmt == ArchiveFormat::ASCII, describe(c), "field");
	if (is_vobject(got->get_object_type())) {
		auto& v = static_cast<VirtualObject&>(*got);
		CHECK("vob-type", static_cast<int>(v.type) == static_cast<int>(got->get_object_type()), "VirtualObject::type is " << static_cast<int>(v.type));
		if (visible(v) && v.visual->get_object_type() == T::zCDecal)
			CHECK("decal", v.visual_decal && fbits(v.visual_decal->dimension.x) == fbits(static_cast<VisualDecal&>(*v.visual).dimension.x), "visual_decal does not match the visual");
	}
	if (sentinel) {
		int32_t m = ar->read_int();
		CHECK("consumed", m == mark, describe(c) << ": loading did not stop at the end of the object: next entry read as " << m << " instead of " << mark);
	}
}
static size_t entries(arch::Items const& v) { return arch::count(v); }

static void roundtrip(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	VirtualObject::enable_packed_save(c.packed);
	Gen g {s, c};
	auto o = g.build(pick_class(s));
	int32_t mark = s.i32();
	Dump d {c};
	d.put("%", o.get());
	k.log << describe(c) << "\n";
	arch::describe(k.log, d.out);
	k.tag(describe(c));
	if (entries(d.out) > 3) k.nontrivial();
	Bytes file;
	{
		auto w = Write::to(&file);
		auto ar = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
		ar->write_object(o, c.g);
		ar->write_int("mark", mark);
		ar->write_header();
	}
	compare_loaded(k, c, d.out, file, true, mark);
}
static void decode(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	Gen g {s, c};
	auto o = g.build(pick_class(s));
	int32_t mark = s.i32();
	unsigned style = static_cast<unsigned>(s.below(16));
	Dump d {c};
	d.put("%", o.get());
	k.log << describe(c) << "\n";
	arch::describe(k.log, d.out);
	if (entries(d.out) > 3) k.nontrivial();
	auto items = d.out;
	items.emplace_back();
	items.back().name = "mark";
	items.back().u = static_cast<uint32_t>(mark);
	compare_loaded(k, c, d.out, arch::encode(c.fmt, c.save, items, d.next, style), true, mark);
}
// Loading into an existing object, through load() or through the class' own parse() functions, is the same as read_object().
template <class C> static bool parse_into(Object& o, ReadArchive& r, GameVersion g) {
	if constexpr (requires(C& c) { C::parse(c, r, g); }) {
		C::parse(static_cast<C&>(o), r, g);
		return true;
	} else if constexpr (requires(C& c) { c = C::parse(r, g); }) {
		static_cast<C&>(o) = C::parse(r, g);
		return true;
	} else if constexpr (requires(C& c) { c = std::move(*C::parse(r, g)); }) {
		static_cast<C&>(o) = std::move(*C::parse(r, g));
		return true;
	}
	return false;
}
using Parse = bool (*)(Object&, ReadArchive&, GameVersion);
static std::map<T, Parse> const parsers {
#define P(type, cls) {T::type, parse_into<cls>}
    P(zCVob, VirtualObject), P(oCItem, VItem), P(oCNpc, VNpc), P(oCMOB, VMovableObject), P(oCMobInter, VInteractiveObject), P(oCMobFire, VFire),
    P(oCMobContainer, VContainer), P(oCMobDoor, VDoor), P(zCPFXController, VParticleEffectController), P(zCVobAnimate, VAnimate),
    P(zCVobLensFlare, VLensFlare), P(zCVobLight, VLight), P(zCVobSound, VSound), P(zCVobSoundDaytime, VSoundDaytime), P(oCZoneMusic, VZoneMusic),
    P(zCZoneZFog, VZoneFog), P(zCZoneVobFarPlane, VZoneFarPlane), P(zCMessageFilter, VMessageFilter), P(zCCodeMaster, VCodeMaster),
    P(zCTrigger, VTrigger), P(zCTriggerList, VTriggerList), P(oCTriggerScript, VTriggerScript), P(oCTriggerChangeLevel, VTriggerChangeLevel),
    P(zCMover, VMover), P(zCTriggerWorldStart, VTriggerWorldStart), P(zCTriggerUntouch, VTriggerUntouch), P(zCCSCamera, VCutsceneCamera),
    P(zCCamTrj_KeyFrame, VCameraTrajectoryFrame), P(oCTouchDamage, VTouchDamage), P(zCEarthquake, VEarthquake), P(zCMoverController, VMoverController),
    P(zCDecal, VisualDecal),
#undef P
};
static bool refers_to_root(arch::Items const& v) {
	for (auto& i : v) if ((i.k == arch::REF && i.u == 0) || refers_to_root(i.kids)) return true;
	return false;
}
static void direct(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	VirtualObject::enable_packed_save(c.packed);
	Gen g {s, c};
	auto& cls = class_of(pick_class(s));
	auto o = g.build(cls.type);
	int32_t mark = s.i32();
	Dump d {c};
	d.put("%", o.get());
	if (refers_to_root(d.out)) return; // an object which is loaded by hand is not known to the archive
	k.log << describe(c) << "\n";
	arch::describe(k.log, d.out);
	if (entries(d.out) > 3) k.nontrivial();
	Bytes file;
	{
		auto w = Write::to(&file);
		auto ar = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
		ar->write_object(o, c.g);
		ar->write_int("mark", mark);
		ar->write_header();
	}
	Exact buf {file};
	auto r = buf.open();
	auto ar = ReadArchive::from(r.get());
	ArchiveObject head;
	CHECK("begin", ar->read_object_begin(head), "no object begins");
	auto got = cls.make();
	auto p = parsers.find(cls.type);
	bool parsed = s.flip() && p != parsers.end() && p->second(*got, *ar, c.g);
	if (!parsed) got->load(*ar, c.g);
	k.tag(parsed ? "parse" : "load");
	CHECK("end", ar->read_object_end(), describe(c) << ": " << (parsed ? "parse" : "load") << "() does not stop at the end of the object");
	CHECK("consumed", ar->read_int() == mark, describe(c) << ": entry after the object misread");
	Dump e {c};
	e.put("%", got.get());
	same(d.out, e.out, c.fmt == ArchiveFormat::ASCII, describe(c), parsed ? "parse" : "load");
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C10", "the object has more than three entries",
	    {"enumerations hold their declared values (at most 255 where the format stores a byte)", "visuals carry the type of their class",
	     "packed objects of Gothic 2 have a 5-bit bias", "unpacked objects only as world data", "strings without NUL and line breaks where the encoding is line or NUL terminated"},
	    {{"roundtrip", 120000, 40, roundtrip}, {"decode", 80000, 40, decode}, {"direct", 60000, 40, direct}}};
	return pbt::main(argc, argv, cfg);
}
