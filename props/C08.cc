// C08: object references, sharing, nulls and skipping.
#include "arch.hh"
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/VirtualObject.hh>
using namespace arch;
using namespace zenkit;

static ArchiveFormat gen_fmt(pbt::Src& s) {
	static ArchiveFormat const f[] {ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE};
	return s.pick(f);
}
// ---- skipping at the level of entries and objects ----
static unsigned g_skips;
static void read_skipping(pbt::Case& c, ReadArchive& r, Items const& v, ArchiveFormat fmt);
// Reads a prefix of the object's contents (possibly ending inside nothing else but between items).
static void read_items(pbt::Case& c, ReadArchive& r, Items const& v, size_t n, ArchiveFormat fmt) {
	Items part(v.begin(), v.begin() + static_cast<long>(n));
	read_skipping(c, r, part, fmt);
}
static void read_skipping(pbt::Case& c, ReadArchive& r, Items const& v, ArchiveFormat fmt) {
	auto& s = c.src;
	for (auto& i : v) {
		if (i.k != OBJ && i.k != REF) {
			read_entry(r, i, fmt);
			continue;
		}
		switch (s.below(3)) {
		case 0:
			check_begin(r, i);
			read_skipping(c, r, i.kids, fmt);
			check_end(r, i);
			break;
		case 1:
			++g_skips;
			c.log << "skip next " << i.name << "\n";
			r.skip_object(false);
			break;
		default: {
			++g_skips;
			check_begin(r, i);
			size_t n = s.below(i.kids.size() + 1);
			c.log << "skip " << i.name << " after " << n << " of " << i.kids.size() << " items\n";
			read_items(c, r, i.kids, n, fmt);
			r.skip_object(true);
		}
		}
	}
}
static void skip(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = gen_fmt(s);
	uint32_t next = 0;
	GenOpt o {fmt};
	o.refs = true;
	Items v = gen_items(s, o, next);
	c.log << fmt_name(fmt) << "\n";
	describe(c.log, v);
	c.tag(fmt_name(fmt));
	Bytes out;
	{
		auto w = Write::to(&out);
		auto a = WriteArchive::to(w.get(), fmt);
		write(*a, v);
		// A final entry makes a misplaced end visible.
		a->write_int("sentinel", 0x12345678);
		a->write_header();
	}
	Exact ex(out);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	g_skips = 0;
	read_skipping(c, *r, v, fmt);
	auto got = r->read_int();
	CHECK("sentinel", got == 0x12345678, "the entry behind the last item reads " << std::hex << got);
	c.nontrivial(g_skips > 0 && count(v) > 3);
}

// ---- object graphs ----
struct Graph {
	std::vector<std::shared_ptr<Object>> nodes;
	std::vector<std::string> label;
};
template <typename T> static std::shared_ptr<T> pick_or_null(pbt::Src& s, std::vector<std::shared_ptr<T>> const& v) {
	auto n = s.below(v.size() + 1);
	return n == 0 ? nullptr : v[n - 1];
}
struct Cmp {
	std::map<Object const*, Object const*> seen; // original -> loaded (null: skipped)
	std::map<Object const*, Object const*> back;
	bool save;
	size_t shared {0};

	// What writing defines, in order, without looking at what was loaded.
	void skip_over(Object const* o) {
		if (!o || seen.count(o)) return;
		seen[o] = nullptr;
		each_child(o, [&](Object const* k) { skip_over(k); });
	}
	template <typename F> void each_child(Object const* o, F f) {
		if (auto* v = dynamic_cast<VirtualObject const*>(o)) {
			if (v->visual) f(v->visual.get());
			if (v->ai) f(v->ai.get());
			if (save && v->event_manager) f(v->event_manager.get());
		} else if (auto* m = dynamic_cast<AiMove const*>(o)) {
			f(m->vob.lock().get());
		}
	}
	void cmp(char const* where, Object const* o, Object const* l) {
		if (!o) {
			CHECK("null", !l, where << ": null came back as an object");
			return;
		}
		if (auto it = seen.find(o); it != seen.end()) {
			++shared;
			if (it->second == nullptr) {
				CHECK("skipped-ref", !l, where << ": reference to an object that was never read came back as an object");
			} else {
				CHECK("sharing", l == it->second, where << ": a second reference came back as " << (l ? "another object" : "null"));
			}
			return;
		}
		CHECK("lost", l, where << ": object came back null");
		CHECK("confused", !back.count(l), where << ": two different objects came back as one");
		seen[o] = l;
		back[l] = o;
		CHECK("class", o->get_object_type() == l->get_object_type(), where << ": class changed");
		if (auto* v = dynamic_cast<VirtualObject const*>(o)) {
			auto* w = dynamic_cast<VirtualObject const*>(l);
			CHECK("identity", v->vob_name == w->vob_name, where << ": expected object " << v->vob_name << ", got " << w->vob_name);
			if (v->visual) cmp("visual", v->visual.get(), w->visual && w->visual->type != VisualType::UNKNOWN ? w->visual.get() : nullptr);
			else CHECK("null", !w->visual || w->visual->type == VisualType::UNKNOWN, "visual appeared");
			cmp("ai", v->ai.get(), w->ai.get());
			if (save) cmp("event manager", v->event_manager.get(), w->event_manager.get());
		} else if (auto* m = dynamic_cast<AiMove const*>(o)) {
			auto* n = dynamic_cast<AiMove const*>(l);
			cmp("ai vob", m->vob.lock().get(), n->vob.lock().get());
			CHECK("null", !n->owner.lock(), "owner appeared");
		} else if (auto* t = dynamic_cast<VNpc::Talent const*>(o)) {
			auto* u = dynamic_cast<VNpc::Talent const*>(l);
			CHECK("identity", t->talent == u->talent && t->value == u->value, where << ": expected talent " << t->talent << "/" << t->value << ", got " << u->talent << "/" << u->value);
		} else if (auto* vi = dynamic_cast<Visual const*>(o)) {
			auto* vl = dynamic_cast<Visual const*>(l);
			CHECK("identity", vi->name == vl->name, where << ": expected visual " << vi->name << ", got " << vl->name);
		}
	}
};
static void graph(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = gen_fmt(s);
	auto ver = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
	bool save = s.flip();
	bool packed = save || s.chance(2, 3);
	std::vector<std::shared_ptr<VirtualObject>> vobs;
	std::vector<std::shared_ptr<Visual>> visuals;
	std::vector<std::shared_ptr<AiMove>> ais;
	std::vector<std::shared_ptr<EventManager>> ems;
	std::vector<std::shared_ptr<Object>> all;
	std::map<Object const*, std::string> label;
	auto reg = [&](auto p, std::string l) { all.push_back(p); label[p.get()] = l; return p; };
	for (size_t i = 0, n = s.range(1, 6); i < n; ++i) {
		auto v = reg(std::make_shared<VirtualObject>(), "vob" + std::to_string(i));
		v->vob_name = "V" + std::to_string(i);
		v->physics_enabled = false;
		vobs.push_back(v);
	}
	for (size_t i = 0, n = s.below(4); i < n; ++i) {
		std::shared_ptr<Visual> v;
		if (s.flip()) { v = std::make_shared<VisualMesh>(); v->type = VisualType::MESH; }
		else { v = std::make_shared<VisualModel>(); v->type = VisualType::MODEL; }
		v->name = "VIS" + std::to_string(i);
		visuals.push_back(v);
		label[v.get()] = v->name;
	}
	for (size_t i = 0, n = s.below(5); i < n; ++i) ais.push_back(reg(std::make_shared<AiMove>(), "ai" + std::to_string(i)));
	for (size_t i = 0, n = s.below(3); i < n; ++i) ems.push_back(reg(std::make_shared<EventManager>(), "em" + std::to_string(i)));
	for (size_t i = 0, n = s.below(4); i < n; ++i) {
		auto t = reg(std::make_shared<VNpc::Talent>(), "talent" + std::to_string(i));
		t->talent = static_cast<int>(i);
		t->value = s.i32();
		t->skill = 0;
	}
	c.log << fmt_name(fmt) << (save ? " save" : " world") << (packed ? " packed" : "") << "\n";
	for (auto& v : vobs) {
		v->visual = pick_or_null(s, visuals);
		if (v->visual) v->visual_name = v->visual->name;
		v->ai = pick_or_null(s, ais);
		v->event_manager = pick_or_null(s, ems);
		c.log << label[v.get()] << " -> " << label[v->visual.get()] << ", " << label[v->ai.get()] << ", " << label[v->event_manager.get()] << "\n";
	}
	for (auto& a : ais) {
		a->vob = pick_or_null(s, vobs);
		c.log << label[a.get()] << " -> " << label[a->vob.lock().get()] << "\n";
	}
	std::vector<std::shared_ptr<Object>> seq;
	for (size_t i = 0, n = s.range(1, 8); i < n; ++i) seq.push_back(pick_or_null(s, all));
	Bytes out;
	VirtualObject::enable_packed_save(packed);
	{
		auto w = Write::to(&out);
		auto a = save ? WriteArchive::to_save(w.get(), fmt) : WriteArchive::to(w.get(), fmt);
		for (auto& o : seq) {
			if (o) a->write_object("obj", o, ver);
			else a->write_object(o, ver);
		}
		a->write_int("sentinel", 4711);
		a->write_header();
	}
	VirtualObject::enable_packed_save(true);
	Exact ex(out);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	Cmp m;
	m.save = save;
	unsigned skips = 0;
	for (auto& o : seq) {
		c.log << "top: " << (o ? label[o.get()] : "null");
		if (s.chance(1, 6)) {
			++skips;
			c.log << " skipped\n";
			r->skip_object(false);
			m.skip_over(o.get());
			continue;
		}
		c.log << "\n";
		auto l = r->read_object(ver);
		m.cmp("top level", o.get(), l.get());
	}
	auto got = r->read_int();
	CHECK("sentinel", got == 4711, "the entry behind the last object reads " << got);
	c.nontrivial(m.shared > 0);
	c.tag(fmt_name(fmt));
	if (skips && m.shared) c.tag("skips and sharing");
}

int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C08",
	                 "skip: generated entry/object trees read with random objects skipped (before, at the start, or in the middle); non-trivial: at least one skip. graph: object graphs with sharing, cycles and nulls; non-trivial: at least one object referenced twice",
	                 {"references to an object whose only definition was skipped are expected to come back null"},
	                 {{"skip", 60000, 20, skip}, {"graph", 40000, 20, graph}}};
	return pbt::main(argc, argv, cfg);
}
