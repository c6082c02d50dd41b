// C09: misread entries of self-describing archives raise ParserError.
#include "arch.hh"
#include <zenkit/vobs/Misc.hh>
#include <zenkit/vobs/VirtualObject.hh>
using namespace arch;
using namespace zenkit;

static bool compatible(ArchiveFormat fmt, Item const& i, Kind want, size_t raw_size) {
	auto is_int = [](Kind k) { return k == INT || k == BYTE || k == WORD; };
	if (want == RAW) return (i.k == RAW && i.raw.size() >= raw_size) || (i.k == MAT3 && raw_size <= 36);
	if (want == MAT3) return i.k == MAT3 || (i.k == RAW && i.raw.size() >= 36);
	if (want == VEC2) return i.k == VEC2 || i.k == BBOX;
	if (fmt == ArchiveFormat::ASCII && is_int(want) && is_int(i.k)) return true;
	return i.k == want;
}
static std::string read_as(ReadArchive& r, Kind k, size_t raw_size) {
	std::ostringstream o;
	switch (k) {
	case STR: o << pbt::quote(r.read_string()); break;
	case INT: o << r.read_int(); break;
	case FLT: o << r.read_float(); break;
	case BYTE: o << int(r.read_byte()); break;
	case WORD: o << r.read_word(); break;
	case ENUM: o << r.read_enum(); break;
	case BOOL: o << r.read_bool(); break;
	case COLOR: o << int(r.read_color().r); break;
	case VEC3: o << r.read_vec3().x; break;
	case VEC2: o << r.read_vec2().x; break;
	case BBOX: o << r.read_bbox().min.x; break;
	case MAT3: o << r.read_mat3x3()[0][0]; break;
	case RAW: o << slurp(*r.read_raw(raw_size)).size() << " bytes"; break;
	default: break;
	}
	return o.str();
}
struct Stop {};
static size_t g_left; // items still to be read correctly before the misread
static Kind g_kind;
static size_t g_raw;
static void misread(pbt::Case& c, ReadArchive& r, ArchiveFormat fmt, char const* what, Item const* i) {
	c.log << "misread " << what << " as " << kind_name(g_kind) << " (" << g_raw << ")\n";
	if (i && compatible(fmt, *i, g_kind, g_raw)) pbt::discard();
	c.nontrivial();
	c.tag(std::string(fmt_name(fmt)) + ":" + (i ? kind_name(i->k) : what) + " as " + kind_name(g_kind));
	try {
		auto v = read_as(r, g_kind, g_raw);
		pbt::fail("silent", std::string(what) + " read as " + kind_name(g_kind) + " silently yields " + v);
	} catch (ParserError const&) {
	} catch (std::exception const& e) {
		pbt::fail("other-error", std::string(what) + " read as " + kind_name(g_kind) + " raises " + e.what() + " instead of a parser error");
	}
	throw Stop {};
}
static void walk(pbt::Case& c, ReadArchive& r, Items const& v, ArchiveFormat fmt) {
	for (auto& i : v) {
		if (i.k == OBJ || i.k == REF) {
			if (g_left-- == 0) misread(c, r, fmt, "object begin", nullptr);
			check_begin(r, i);
			walk(c, r, i.kids, fmt);
			if (g_left-- == 0) misread(c, r, fmt, "object end", nullptr);
			check_end(r, i);
		} else {
			if (g_left-- == 0) misread(c, r, fmt, "entry", &i);
			read_entry(r, i, fmt);
		}
	}
}
static size_t slots(Items const& v) {
	size_t n = 0;
	for (auto& i : v) n += 1 + (i.k == OBJ || i.k == REF ? 1 + slots(i.kids) : 0);
	return n;
}
static void mismatch(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = s.flip() ? ArchiveFormat::ASCII : ArchiveFormat::BINSAFE;
	uint32_t next = 0;
	GenOpt o {fmt};
	o.refs = true;
	Items v = gen_items(s, o, next, 0, 6);
	g_left = s.below(slots(v) + 1);
	g_kind = static_cast<Kind>(s.below(OBJ));
	g_raw = s.chance(1, 2) ? s.below(8) : s.below(400);
	c.log << fmt_name(fmt) << "\n";
	describe(c.log, v);
	Bytes out;
	{
		auto w = Write::to(&out);
		auto a = WriteArchive::to(w.get(), fmt);
		write(*a, v);
		a->write_header();
	}
	Exact ex(out);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	try {
		walk(c, *r, v, fmt);
		misread(c, *r, fmt, "end of archive", nullptr);
	} catch (Stop const&) {}
}
// Values of ASCII archives which are no values of their type.
static void malformed(pbt::Case& c) {
	auto& s = c.src;
	static char const* const types[] = {"int", "int", "int", "enum", "bool", "float", "raw", "raw", "color", "vec3", "rawFloat", "rawFloat"};
	static Kind const kinds[] = {INT, BYTE, WORD, ENUM, BOOL, FLT, RAW, MAT3, COLOR, VEC3, VEC2, BBOX};
	size_t t = s.below(12);
	std::string value;
	size_t size = kinds[t] == MAT3 ? 36 : 1 + s.below(40);
	if (kinds[t] == RAW || kinds[t] == MAT3) {
		for (size_t i = 0; i < 2 * size; ++i) value += "0123456789abcdefABCDEF"[s.below(22)];
		// What is read is the beginning. Anything but a digit may stand there.
		for (size_t n = 1 + s.below(3); n > 0; --n) value[s.below(value.size())] = s.pick({'g', 'G', 'x', ' ', '-', '+', '.', '/', ':', '@', '`', '\x7f'});
	} else if (t >= 8) { // too few numbers
		size_t want = kinds[t] == COLOR ? 4 : kinds[t] == VEC3 ? 3 : kinds[t] == VEC2 ? 2 : 6;
		for (size_t n = s.below(want); n > 0; --n) value += std::to_string(s.below(256)) + (n > 1 ? " " : "");
	} else
		value = s.pick({"", "a", "x1", "-", "+", " ", "--1", "e5", ":1", "="});
	bool good = s.chance(1, 6); // the entry before has been read
	auto entry = std::string("v=") + types[t] + ":" + value;
	Bytes out;
	{
		auto w = Write::to(&out);
		auto a = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
		if (good) a->write_int("before", 7);
		w->write_line("\t" + entry);
		a->write_int("after", 8);
		a->write_header();
	}
	c.log << pbt::quote(entry) << " read as " << kind_name(kinds[t]) << "\n";
	c.nontrivial();
	c.tag(kind_name(kinds[t]));
	Exact ex(out);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	if (good) CHECK("before", r->read_int() == 7, "the entry before");
	try {
		auto v = read_as(*r, kinds[t], size);
		pbt::fail("silent-value", pbt::quote(entry) + " silently yields " + v);
	} catch (ParserError const&) {
	} catch (std::exception const& e) {
		pbt::fail("other-error", pbt::quote(entry) + " raises " + e.what() + " instead of a parser error");
	}
}
// Typed object reads.
static void objects(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = s.flip() ? ArchiveFormat::ASCII : ArchiveFormat::BINSAFE;
	auto make = [](size_t n) -> std::shared_ptr<Object> {
		switch (n) {
		case 0: return std::make_shared<VisualMesh>();
		case 1: return std::make_shared<EventManager>();
		case 2: { auto t = std::make_shared<VNpc::Talent>(); t->talent = t->value = t->skill = 1; return t; }
		case 3: return std::make_shared<AiMove>();
		default: return std::make_shared<VSpot>();
		}
	};
	size_t a = s.below(5), b = s.below(5);
	if (a == b) pbt::discard();
	c.nontrivial();
	c.log << fmt_name(fmt) << " class " << a << " read as " << b << "\n";
	Bytes out;
	{
		auto w = Write::to(&out);
		auto ar = WriteArchive::to(w.get(), fmt);
		ar->write_object("o", make(a), GameVersion::GOTHIC_2);
		ar->write_header();
	}
	Exact ex(out);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	try {
		auto v = GameVersion::GOTHIC_2;
		switch (b) {
		case 0: r->read_object<VisualMesh>(v); break;
		case 1: r->read_object<EventManager>(v); break;
		case 2: r->read_object<VNpc::Talent>(v); break;
		case 3: r->read_object<AiMove>(v); break;
		default: r->read_object<VSpot>(v); break;
		}
	} catch (ParserError const&) { return; }
	pbt::fail("object-class", "an object of another class was returned");
}

int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C09",
	                 "a generated archive is read correctly up to a random position and then read as a type that does not match (or at an object boundary or the end); non-trivial: the requested type cannot represent what is stored there",
	                 {"bytes and words are stored as int in ASCII archives, a longer raw block may be read as a shorter one or as a matrix, a box as a 2-vector"},
	                 {{"mismatch", 100000, 20, mismatch}, {"malformed", 8000, 5, malformed}, {"objects", 400, 5, objects}}};
	return pbt::main(argc, argv, cfg);
}
