// C11: saved objects have the engine's entry names, types, order and class versions.
#include "archparse.hh"
#include "fields.hh"
#include "pbt.hh"
#include <filesystem>
using namespace fld;
namespace fs = std::filesystem;

static Bytes save(std::shared_ptr<Object> const& o, Ctx const& c) {
	VirtualObject::enable_packed_save(c.packed);
	Bytes file;
	auto w = Write::to(&file);
	auto ar = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
	ar->write_object(o, c.g);
	ar->write_header();
	return file;
}
static arch::File reparse(Bytes const& b, Ctx const& c) {
	try {
		return arch::parse_file(b);
	} catch (arch::Bad const& e) {
		pbt::fail("well-formed", describe(c) + ": the saved file is not a well-formed archive: " + e.what());
	}
}
using arch::forgive;
// Bits of the packed flags nothing is known about: the event manager outside of save-games, unused bits.
static void mask(arch::Items& v, Ctx const& c) {
	for (auto& i : v) {
		if (i.name == "dataRaw" && i.raw.size() == (c.g2() ? 83u : 74u)) {
			if (!c.save) i.raw[73] &= ~0x20;
			if (c.g2()) i.raw[74] &= 0x7F;
			else i.raw[73] &= 0x7F;
		}
		mask(i.kids, c);
	}
}
static void drop_index(arch::Items& v) {
	for (auto& i : v) { i.index = 0; if (i.k == arch::REF) i.u = 0; drop_index(i.kids); }
}
static void layout(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	c.fmt = s.flip() ? ArchiveFormat::ASCII : ArchiveFormat::BINSAFE;
	Gen g {s, c};
	auto& cl = classes();
	auto o = g.build(cl[s.below(cl.size())].type);
	Dump d {c};
	d.put("%", o.get());
	k.log << describe(c) << "\n";
	arch::describe(k.log, d.out);
	if (arch::count(d.out) > 3) k.nontrivial();
	auto f = reparse(save(o, c), c);
	CHECK("objects", f.objects == d.next, describe(c) << ": the archive counts " << f.objects << " objects, it has " << d.next);
	auto want = arch::normal(d.out, c.fmt);
	forgive(want), forgive(f.items);
	same(want, f.items, c.fmt == ArchiveFormat::ASCII, describe(c), "entry");
}

struct Sample { std::string name; GameVersion g; Bytes data; };
static std::vector<Sample> samples;
static bool odd(arch::Items const& v, std::string const& n) {
	for (auto& i : v) if (i.name == n || odd(i.kids, n)) return true;
	return false;
}
static bool refers(arch::Items const& v) {
	for (auto& i : v) if (i.k == arch::REF || refers(i.kids)) return true;
	return false;
}
// Original files: the library's view of the object and what it saves are the file's own entries.
static void original(pbt::Case& k) {
	auto& s = k.src;
	auto& smp = samples[s.below(samples.size())];
	Ctx c;
	c.g = smp.g;
	auto orig = arch::parse_file(smp.data);
	c.save = orig.save;
	auto want = arch::normal(orig.items, ArchiveFormat::BINSAFE);
	while (want.size() > 1 && want.back().k != arch::OBJ) want.pop_back(); // the number of children, which is not part of the object
	c.packed = !odd(want, "bbox3DWS");
	k.log << smp.name << "\n";
	k.tag(smp.name);
	auto load = [&](Bytes const& b, std::shared_ptr<Object>& out) {
		Exact e {b};
		auto r = e.open();
		auto ar = ReadArchive::from(r.get());
		out = ar->read_object(c.g);
		CHECK("class", out != nullptr, smp.name << ": not loaded");
		Dump d {c};
		d.put(want[0].name, out.get());
		return d.out;
	};
	std::shared_ptr<Object> o, o2;
	auto view = arch::normal(load(smp.data, o), ArchiveFormat::BINSAFE);
	drop_index(want), drop_index(view);
	mask(want, c), mask(view, c);
	forgive(want), forgive(view);
	same(want, view, false, smp.name, "original-loaded");
	c.fmt = s.pick({ArchiveFormat::BINSAFE, ArchiveFormat::ASCII, ArchiveFormat::BINARY});
	auto file = save(o, c);
	if (c.fmt != ArchiveFormat::BINARY) {
		auto f = reparse(file, c);
		auto w = arch::normal(want, c.fmt);
		if (!w.empty()) w[0].name = "%";
		drop_index(f.items), forgive(f.items), mask(f.items, c);
		same(w, f.items, c.fmt == ArchiveFormat::ASCII, smp.name + " saved as " + arch::fmt_name(c.fmt), "original-saved");
	}
	// whatever the values become, the entries stay those of the file
	auto again = arch::normal(load(file, o2), ArchiveFormat::BINSAFE);
	drop_index(again), forgive(again), mask(again, c);
	same(want, again, c.fmt == ArchiveFormat::ASCII, smp.name + " saved and loaded", "original-again");
	k.nontrivial();
}
int main(int argc, char** argv) {
	quiet();
	for (auto [dir, g] : {std::pair {"G1", GameVersion::GOTHIC_1}, std::pair {"G2", GameVersion::GOTHIC_2}})
		for (auto& e : fs::directory_iterator(fs::path("/repo/tests/samples") / dir / "VOb"))
			samples.push_back({std::string(dir) + "/" + e.path().filename().string(), g, read_file(e.path())});
	// Files cut out of a world refer to objects they do not contain.
	samples.erase(std::remove_if(samples.begin(), samples.end(), [](auto& s) { return refers(arch::parse_file(s.data).items); }), samples.end());
	std::sort(samples.begin(), samples.end(), [](auto& a, auto& b) { return a.name < b.name; });
	pbt::Config cfg {"C11", "layout: the object has more than three entries; original: always",
	    {"entry names and types follow the original files and the engine documentation", "numbers in the names hc<n>, slaveTriggered<n>, slaveVobName<n> are not compared", "sample files of /repo/tests/samples"},
	    {{"original", 600, 4, original}, {"layout", 60000, 30, layout}}};
	return pbt::main(argc, argv, cfg);
}
