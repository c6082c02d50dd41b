// C07: archive entries read back exactly as written in all three encodings.
#include "arch.hh"
#include <ctime>
using namespace arch;
using namespace zenkit;

// The clock the library sees while it writes an archive (headers carry the date and are rewritten at the end).
static time_t g_clock = 1700000000;
extern "C" time_t time(time_t* t) noexcept {
	if (t) *t = g_clock;
	return g_clock;
}

static ArchiveFormat gen_fmt(pbt::Src& s) {
	static ArchiveFormat const f[] {ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE};
	return s.pick(f);
}
static void read_all(ReadArchive& r, Items const& v, ArchiveFormat fmt, pbt::Src& s) {
	for (auto& i : v) {
		if (i.k == OBJ || i.k == REF) {
			if (fmt != ArchiveFormat::BINARY && s.chance(1, 4)) {
				auto at = r.get_stream()->tell();
				CHECK("probe-end", !r.read_object_end(), "an object begin was taken for an object end");
				CHECK("probe-moved", r.get_stream()->tell() == at, "failed read_object_end moved the position");
			}
			check_begin(r, i);
			read_all(r, i.kids, fmt, s);
			if (fmt != ArchiveFormat::BINARY && s.chance(1, 4)) {
				auto at = r.get_stream()->tell();
				ArchiveObject o;
				CHECK("probe-begin", !r.read_object_begin(o), "an object end was taken for an object begin");
				CHECK("probe-moved", r.get_stream()->tell() == at, "failed read_object_begin moved the position");
			}
			check_end(r, i);
			continue;
		}
		if (fmt != ArchiveFormat::BINARY && s.chance(1, 4)) {
			auto at = r.get_stream()->tell();
			ArchiveObject o;
			bool b = r.read_object_begin(o), e = r.read_object_end();
			CHECK("probe-entry", !b && !e, "a " << kind_name(i.k) << " entry was taken for an object boundary");
			CHECK("probe-moved", r.get_stream()->tell() == at, "failed boundary reads moved the position");
		}
		read_entry(r, i, fmt);
	}
}
static void check_header(ReadArchive& r, ArchiveFormat fmt, bool save) {
	auto& h = r.get_header();
	CHECK("header", h.format == fmt && h.save == save && h.version == 1 && r.is_save_game() == save, "header: format " << int(h.format) << " save " << h.save << " version " << h.version);
	CHECK("header", h.archiver == (fmt == ArchiveFormat::BINSAFE ? "zCArchiverBinSafe" : "zCArchiverGeneric"), "archiver " << h.archiver);
}

// Splits off the header; returns the offset behind it and the object count it announces.
static std::pair<size_t, long> parse_header(Bytes const& b, ArchiveFormat fmt) {
	std::string s(reinterpret_cast<char const*>(b.data()), b.size());
	size_t p = s.find("\nEND\n");
	CHECK("layout-header", p != std::string::npos, "no END in header");
	p += 5;
	if (fmt == ArchiveFormat::BINSAFE) {
		CHECK("layout-header", b.size() >= p + 12, "bin-safe header cut off");
		uint32_t n, version;
		memcpy(&n, b.data() + p + 4, 4);
		memcpy(&version, b.data() + p, 4);
		CHECK("layout-header", version == 2, "bin-safe version " << version << " instead of 2");
		return {p + 12, n};
	}
	CHECK("layout-header", s.compare(p, 8, "objects ") == 0, "no objects field");
	long n = strtol(s.c_str() + p + 8, nullptr, 10);
	size_t e = s.find("\nEND\n", p);
	CHECK("layout-header", e != std::string::npos && s.size() >= e + 6 && s[e + 5] == '\n', "second header part not closed by END and an empty line");
	return {e + 6, n};
}

static void roundtrip(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = gen_fmt(s);
	bool save = s.flip();
	uint32_t next = 0;
	GenOpt o {fmt};
	o.refs = true;
	Items v = gen_items(s, o, next);
	struct tm tmv {};
	tmv.tm_year = static_cast<int>(s.range(100, 130)); tmv.tm_mon = static_cast<int>(s.below(12)); tmv.tm_mday = static_cast<int>(s.range(1, 31));
	tmv.tm_hour = static_cast<int>(s.below(24)); tmv.tm_min = static_cast<int>(s.below(60)); tmv.tm_sec = static_cast<int>(s.below(60)); tmv.tm_isdst = -1;
	g_clock = mktime(&tmv);
	uint32_t wait = s.chance(1, 4) ? static_cast<uint32_t>(s.below(60 * 60 * 30)) : 0; // time passing while the archive is written
	c.log << fmt_name(fmt) << (save ? " save" : " world") << " seconds while writing: " << wait << " at " << asctime(&tmv);
	describe(c.log, v);
	c.nontrivial(count(v) >= 3);
	c.tag(fmt_name(fmt));
	if (wait) c.tag("clock moves");
	if (next > 9) c.tag("10+ objects");

	Bytes out;
	size_t before = s.chance(1, 4) ? s.range(1, 300) : 0; // what the stream holds in front of the archive
	bool refresh = s.chance(1, 4);                        // the header is brought up to date in between
	c.log << before << " bytes in front" << (refresh ? ", header written repeatedly" : "") << "\n";
	if (before) c.tag("archive behind other data");
	if (refresh) c.tag("header written repeatedly");
	time_t began = g_clock;
	{
		auto w = Write::to(&out);
		for (size_t i = 0; i < before; ++i) w->write_ubyte(static_cast<uint8_t>(i));
		auto a = save ? WriteArchive::to_save(w.get(), fmt) : WriteArchive::to(w.get(), fmt);
		CHECK("writer-save", a->is_save_game() == save, "writer's is_save_game");
		g_clock += wait / 2;
		for (auto& i : v) {
			if (refresh && s.chance(1, 3)) a->write_header();
			write(*a, {i});
		}
		auto end = w->tell();
		g_clock += wait - wait / 2;
		a->write_header();
		CHECK("writer-position", w->tell() == end, "write_header moved the position from " << end << " to " << w->tell());
	}
	Exact ex(out);
	auto in = ex.open();
	in->seek(static_cast<ssize_t>(before), Whence::BEG);
	auto r = ReadArchive::from(in.get());
	check_header(*r, fmt, save);
	{
		auto const& h = r->get_header();
		struct tm t {};
		t.tm_isdst = -1;
		bool ok = sscanf(h.date.c_str(), "%d.%d.%d %d:%d:%d", &t.tm_mday, &t.tm_mon, &t.tm_year, &t.tm_hour, &t.tm_min, &t.tm_sec) == 6;
		t.tm_mon -= 1, t.tm_year -= 1900;
		time_t at = ok ? mktime(&t) : 0;
		CHECK("header-date", ok && at >= began && at <= g_clock, "date " << pbt::quote(h.date) << " is not that of writing the archive");
		CHECK("header-user", !h.user.empty(), "no user in the header");
	}
	for (size_t i = 0; i < before; ++i) CHECK("in-front", out[i] == static_cast<std::byte>(i), "byte " << i << " in front of the archive was overwritten");
	out.erase(out.begin(), out.begin() + static_cast<long>(before));
	read_all(*r, v, fmt, s);
	auto [start, n] = parse_header(out, fmt);
	CHECK("object-count", n == static_cast<long>(next), "header announces " << n << " objects, " << next << " were written");

	// The bytes themselves, against the documented layout.
	if (fmt == ArchiveFormat::BINARY) {
		Out want;
		enc_binary(want, v);
		Bytes body(out.begin() + static_cast<long>(start), out.end());
		CHECK("layout-binary", body == want.bytes(), "binary body " << bhex(body) << " expected " << bhex(want.bytes()));
		CHECK("position", r->get_stream()->tell() - before == out.size(), "reader stops at " << r->get_stream()->tell() - before << " of " << out.size());
	} else if (fmt == ArchiveFormat::BINSAFE) {
		Out want;
		Keys k;
		enc_binsafe(want, k, v);
		uint32_t off;
		memcpy(&off, out.data() + start - 4, 4);
		off -= static_cast<uint32_t>(before); // the offset counts from the start of the stream
		CHECK("layout-binsafe", off == start + want.size(), "hash table offset " << off << ", entries end at " << start + want.size());
		CHECK("position", r->get_stream()->tell() - before == off, "reader stops at " << r->get_stream()->tell() - before << ", table at " << off);
		Bytes body(out.begin() + static_cast<long>(start), out.begin() + off);
		CHECK("layout-binsafe", body == want.bytes(), "bin-safe body " << bhex(body) << " expected " << bhex(want.bytes()));
		Out tab;
		tab.u32(k.list.size());
		Read& t = *in;
		t.seek(static_cast<ssize_t>(off + before), Whence::BEG);
		std::map<uint32_t, std::string> got;
		uint32_t cnt = t.read_uint();
		CHECK("layout-table", cnt == k.list.size(), "table has " << cnt << " keys, expected " << k.list.size());
		for (uint32_t j = 0; j < cnt; ++j) {
			auto len = t.read_ushort(); auto id = t.read_ushort(); auto h = t.read_uint(); auto key = t.read_string(len);
			uint32_t want_h = 0;
			for (char ch : key) want_h = want_h * 0x21 + ch;
			CHECK("layout-table", h == want_h % 0x61, "bucket of key " << key);
			got[id] = key;
		}
		for (size_t j = 0; j < k.list.size(); ++j) CHECK("layout-table", got[j] == k.list[j], "key " << j << " is " << got[j] << " expected " << k.list[j]);
		CHECK("layout-table", t.tell() - before == out.size(), "bytes behind the key table");
	} else {
		std::vector<Line> want;
		enc_ascii(want, v);
		std::string body(reinterpret_cast<char const*>(out.data()) + start, out.size() - start);
		size_t p = 0;
		for (auto& l : want) {
			size_t e = body.find('\n', p);
			CHECK("layout-ascii", e != std::string::npos, "file ends before line " << pbt::quote(l.text));
			std::string got = body.substr(p, e - p);
			p = e + 1;
			got = got.substr(std::min(got.find_first_not_of('\t'), got.size()));
			if (!l.is_float) CHECK("layout-ascii", got == l.text, "line " << pbt::quote(got.substr(0, 200)) << " expected " << pbt::quote(l.text.substr(0, 200)));
			else {
				CHECK("layout-ascii", got.compare(0, l.text.size(), l.text) == 0, "line " << pbt::quote(got) << " expected " << pbt::quote(l.text));
				char const* q = got.c_str() + l.text.size();
				for (float f : l.floats) {
					char* end;
					float g = strtof(q, &end);
					CHECK("layout-ascii", end != q && float_ok(fmt, f, g), "number in " << pbt::quote(got) << " expected " << ftext(f));
					q = end;
				}
				while (*q == ' ') ++q;
				CHECK("layout-ascii", !*q, "surplus text in " << pbt::quote(got));
			}
		}
		CHECK("layout-ascii", p == body.size(), "surplus lines " << pbt::quote(body.substr(p, 100)));
		CHECK("position", r->get_stream()->eof(), "reader does not reach the end");
	}
}

// Files laid out by an independent encoder, with the optional header lines present or not.
static void foreign(pbt::Case& c) {
	auto& s = c.src;
	auto fmt = gen_fmt(s);
	bool save = s.flip();
	uint32_t next = 0;
	GenOpt o {fmt};
	o.refs = true;
	Items v = gen_items(s, o, next);
	unsigned style = static_cast<unsigned>(s.below(16));
	c.log << fmt_name(fmt) << " style " << style << "\n";
	describe(c.log, v);
	c.nontrivial(count(v) >= 3);
	c.tag(fmt_name(fmt));
	Bytes b = encode(fmt, save, v, next, style);
	Exact ex(b);
	auto in = ex.open();
	auto r = ReadArchive::from(in.get());
	check_header(*r, fmt, save);
	CHECK("header-date", r->get_header().date == (style & 1 ? "" : "3.10.2022 11:15:55"), "date " << r->get_header().date);
	CHECK("header-user", r->get_header().user == (style & 2 ? "" : "steam user"), "user " << r->get_header().user);
	read_all(*r, v, fmt, s);
}

int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C07",
	                 "a case is a generated tree of entries, objects and references in one of three encodings; non-trivial: at least 3 items",
	                 {"strings hold no line breaks or NUL in ASCII/binary archives; names hold no blanks; enum values fit a byte in binary archives; floats are finite"},
	                 {{"roundtrip", 150000, 20, roundtrip}, {"foreign", 80000, 20, foreign}}};
	return pbt::main(argc, argv, cfg);
}
