#include "common.hh"
#include <fstream>
#include <sstream>
#include <zenkit/Mmap.hh>
using namespace zenkit;

namespace {
	struct Model {
		std::string d;
		size_t pos {0};
		size_t read(char* buf, size_t n) {
			size_t m = std::min(n, d.size() - pos);
			memcpy(buf, d.data() + pos, m);
			pos += m;
			return m;
		}
		uint64_t num(size_t n) {
			uint64_t v = 0;
			for (size_t i = 0; i < n && pos < d.size(); ++i) v |= uint64_t {static_cast<uint8_t>(d[pos++])} << (8 * i);
			return v;
		}
		uint32_t f() { return static_cast<uint32_t>(num(4)); }
		// first byte that is neither consumed into the line nor ignored
		std::string line(std::string_view ignore) {
			std::string s;
			char c = 0;
			for (;;) {
				if (pos >= d.size()) { c = 0; break; }
				c = d[pos++];
				if (c == '\0' || c == '\r' || c == '\n') break;
				s += c;
			}
			if (ignore.empty() || c == '\0' || pos >= d.size()) return s;
			while (pos < d.size() && d[pos] != '\0' && ignore.find(d[pos]) != std::string_view::npos) ++pos;
			if (pos + 1 == d.size() && d[pos] == '\0') ++pos; // a final NUL is taken along
			return s;
		}
	};

	enum Kind { MEM, VEC_PTR, VEC_OWN, PATH, CFILE, ISTREAM };
	char const* const KIND[] = {"memory", "vector*", "vector", "path", "FILE*", "istream"};

	std::string gen_data(pbt::Src& s) {
		std::string d;
		if (s.flip()) {
			auto v = s.bytes(300);
			d.assign(v.begin(), v.end());
		} else {
			// line oriented
			size_t n = s.len(20);
			for (size_t i = 0; i < n; ++i) {
				d += s.text(12, "abcXYZ019 \t=;[]");
				static std::string_view const ends[] = {"\n", "\r\n", "\n\n", "\r", " \n", std::string_view("\0", 1), "\n \t\v\f", "\n\t x", "\r\n\r\n"};
				d += s.pick(ends);
			}
		}
		return d;
	}

	void history(pbt::Case& c) {
		auto& s = c.src;
		auto kind = static_cast<Kind>(s.below(6));
		Model m {gen_data(s)};
		bool mem = kind <= PATH;
		auto bytes = to_bytes(m.d);
		Exact exact(bytes);
		Bytes borrowed = bytes;
		std::unique_ptr<Read> r;
		FILE* fp = nullptr;
		std::istringstream iss(m.d);
		std::string path;
		if (kind == PATH || kind == CFILE) {
			path = pbt::scratch_dir() + "/in.bin";
			write_file(path, bytes);
		}
		switch (kind) {
		case MEM: r = exact.open(); break;
		case VEC_PTR: r = Read::from(&borrowed); break;
		case VEC_OWN: r = Read::from(bytes); break;
		case PATH: r = Read::from(std::filesystem::path(path)); break;
		case CFILE: fp = fopen(path.c_str(), "rb"); r = Read::from(fp); break;
		case ISTREAM: r = Read::from(&iss); break;
		}
		struct Close { FILE* f; ~Close() { if (f) fclose(f); } } closer {fp};
		c.log << KIND[kind] << " over " << m.d.size() << " bytes " << pbt::quote(m.d.substr(0, 60)) << ":";
		c.tag(std::string("backend:") + KIND[kind]);
		size_t nops = 1 + s.len(40), done = 0;
		auto fits = [](size_t) { return true; };
		for (size_t i = 0; i < nops; ++i) {
			auto op = s.below(20);
			std::string name;
			auto num = [&](size_t n, uint64_t got, uint64_t want) {
				uint64_t mask = n == 8 ? ~0ull : (1ull << (8 * n)) - 1;
				CHECK("number", (got & mask) == (want & mask), name << " at op " << i << " returned " << (got & mask) << ", expected " << (want & mask));
			};
			switch (op) {
			case 0: name = "char"; if (!fits(1)) continue; num(1, static_cast<uint8_t>(r->read_char()), m.num(1)); break;
			case 1: name = "byte"; if (!fits(1)) continue; { int8_t v = r->read_byte(); CHECK("number", v == static_cast<int8_t>(m.num(1)), "read_byte " << int(v)); } break;
			case 2: name = "ubyte"; if (!fits(1)) continue; { uint8_t v = r->read_ubyte(); CHECK("number", v == static_cast<uint8_t>(m.num(1)), "read_ubyte " << int(v)); } break;
			case 3: name = "short"; if (!fits(2)) continue; { int16_t v = r->read_short(); auto w = static_cast<int16_t>(m.num(2)); CHECK("number", v == w, "read_short " << v << " expected " << w); } break;
			case 4: name = "ushort"; if (!fits(2)) continue; { uint16_t v = r->read_ushort(); auto w = static_cast<uint16_t>(m.num(2)); CHECK("number", v == w, "read_ushort " << v << " expected " << w); } break;
			case 5: name = "int"; if (!fits(4)) continue; { int32_t v = r->read_int(); auto w = static_cast<int32_t>(m.num(4)); CHECK("number", v == w, "read_int " << v << " expected " << w); } break;
			case 6: name = "uint"; if (!fits(4)) continue; { uint32_t v = r->read_uint(); auto w = static_cast<uint32_t>(m.num(4)); CHECK("number", v == w, "read_uint " << v << " expected " << w); } break;
			case 7: name = "float"; if (!fits(4)) continue; { float v = r->read_float(); CHECK("number", fbits(v) == m.f(), "read_float " << v); } break;
			case 8: name = "vec2"; if (!fits(8)) continue; { auto v = r->read_vec2(); CHECK("vector", fbits(v.x) == m.f(), "vec2.x"); CHECK("vector", fbits(v.y) == m.f(), "vec2.y"); } break;
			case 9: name = "vec3"; if (!fits(12)) continue; { auto v = r->read_vec3(); CHECK("vector", fbits(v.x) == m.f(), "vec3.x"); CHECK("vector", fbits(v.y) == m.f(), "vec3.y"); CHECK("vector", fbits(v.z) == m.f(), "vec3.z"); } break;
			case 10: name = "mat3"; if (!fits(36)) continue; { auto v = r->read_mat3(); for (unsigned row = 0; row < 3; ++row) for (unsigned col = 0; col < 3; ++col) CHECK("matrix", fbits(v[col][row]) == m.f(), "mat3 row " << row << " column " << col); } break;
			case 11: name = "mat4"; if (!fits(64)) continue; { auto v = r->read_mat4(); for (unsigned row = 0; row < 4; ++row) for (unsigned col = 0; col < 4; ++col) CHECK("matrix", fbits(v[col][row]) == m.f(), "mat4 row " << row << " column " << col); } break;
			case 12: {
				size_t n = s.len(40);
				name = "string" + std::to_string(n);
				if (!fits(n)) continue;
				auto v = r->read_string(n);
				std::string w(n, '\0');
				m.read(w.data(), n);
				CHECK("string", v == w, "read_string(" << n << ") returned " << pbt::quote(v) << ", expected " << pbt::quote(w));
				break;
			}
			case 13:
			case 14: {
				bool skip = s.flip();
				static std::string_view const sets[] = {" \t\r\n\v\f", "\n", "\r\n", "xX"};
				bool custom = s.chance(1, 3);
				std::string_view set = custom ? s.pick(sets) : skip ? std::string_view(" \t\r\n\v\f") : std::string_view();
				name = "line";
				Model probe = m;
				auto w = probe.line(set);
				m = probe;
				auto v = custom ? r->read_line_then_ignore(set) : r->read_line(skip);
				CHECK("line", v == w, "read_line returned " << pbt::quote(v) << ", expected " << pbt::quote(w));
				c.tag("op:line");
				break;
			}
			case 15: {
				size_t n = s.len(200);
				name = "raw" + std::to_string(n);
				std::vector<char> got(n + 8, '\x5a'), want(n + 8, '\x5a');
				size_t w = m.read(want.data(), n), g = r->read(got.data(), n);
				CHECK("raw", g == w && got == want, "read(" << n << ") returned " << g << " bytes, expected " << w);
				if (w < n) c.tag("op:short-read");
				break;
			}
			default: { // seek
				name = "seek";
				auto whence = static_cast<Whence>(s.below(3));
				bool out = s.chance(1, 6);
				size_t target = s.below(m.d.size() + 1);
				int64_t t = static_cast<int64_t>(target);
				if (out) { t = mem && s.flip() ? static_cast<int64_t>(m.d.size()) + 1 + static_cast<int64_t>(s.len(1000)) : -1 - static_cast<int64_t>(s.len(1000)); c.tag("op:seek-outside"); }
				int64_t off = whence == Whence::BEG ? t : whence == Whence::CUR ? t - static_cast<int64_t>(m.pos) : t - static_cast<int64_t>(m.d.size());
				r->seek(off, whence);
				if (!out) m.pos = target;
				break;
			}
			}
			++done;
			c.log << " " << name << "@" << m.pos;
			CHECK("position", r->tell() == m.pos, "position is " << r->tell() << " after " << name << ", expected " << m.pos);
			CHECK("eof", r->eof() == (m.pos >= m.d.size()), "eof() is " << r->eof() << " at position " << m.pos << " of " << m.d.size());
		}
		c.nontrivial(done >= 3 && m.d.size() >= 4);
	}
	// The same history gives the same observations on all back ends (metamorphic, independent of the model).
	void agree(pbt::Case& c) {
		auto& s = c.src;
		auto v = s.bytes(400);
		v.push_back(s.u8());
		v.push_back('x');
		auto bytes = to_bytes(v);
		Exact exact(bytes);
		std::string path = pbt::scratch_dir() + "/in.bin";
		write_file(path, bytes);
		std::istringstream iss(std::string(v.begin(), v.end()));
		FILE* fp = fopen(path.c_str(), "rb");
		struct Close { FILE* f; ~Close() { if (f) fclose(f); } } closer {fp};
		std::vector<std::unique_ptr<Read>> rs;
		rs.push_back(exact.open());
		rs.push_back(Read::from(bytes));
		rs.push_back(Read::from(std::filesystem::path(path)));
		rs.push_back(Read::from(fp));
		rs.push_back(Read::from(&iss));
		size_t n = 1 + s.len(20), pos = 0;
		for (size_t i = 0; i < n; ++i) {
			size_t to = s.below(bytes.size()), len = s.below(bytes.size() - to + 1);
			for (auto& r : rs) r->seek(static_cast<ssize_t>(to), Whence::BEG);
			std::vector<std::string> got;
			for (auto& r : rs) got.push_back(r->read_string(len));
			for (auto& g : got) CHECK("agree", g == got[0], "back ends disagree on " << len << " bytes at " << to);
			pos = to + len;
			for (auto& r : rs) CHECK("agree-tell", r->tell() == pos, "position " << r->tell() << " expected " << pos);
		}
		c.log << bytes.size() << " bytes, " << n << " seek/read pairs";
		c.nontrivial(n >= 2);
	}
	// A mapped file shows the file's bytes for as long as the mapping (moved or not) lives, and is released with it.
	void mapped(pbt::Case& c) {
		auto& s = c.src;
		auto v = s.bytes(s.chance(1, 10) ? 9000 : 300);
		auto bytes = to_bytes(v);
		std::string path = pbt::scratch_dir() + "/mapped.bin";
		write_file(path, bytes);
		auto maps = [&] {
			std::ifstream in("/proc/self/maps");
			size_t n = 0;
			for (std::string l; std::getline(in, l);) n += l.find("/mapped.bin") != l.npos;
			return n;
		};
		unsigned moves = s.below(4);
		c.log << bytes.size() << " bytes, moved " << moves << " times";
		c.nontrivial(!bytes.empty() && moves > 0);
		{
			std::vector<Mmap> keep; // grows, so that earlier mappings move as well
			keep.emplace_back(std::filesystem::path(path));
			for (unsigned i = 0; i < moves; ++i) {
				Mmap t {std::move(keep.back())};
				CHECK("mapped-moved", keep.back().size() == 0, "a mapping which was moved away still has a size");
				keep.emplace_back(std::move(t));
			}
			CHECK("mapped", keep.back().size() == bytes.size(), "mapping has " << keep.back().size() << " bytes, the file " << bytes.size());
			CHECK("mapped", bytes.empty() || (keep.back().data() != nullptr && memcmp(keep.back().data(), bytes.data(), bytes.size()) == 0), "mapping shows other bytes than the file");
		}
		CHECK("mapped-release", maps() == 0, "the file is still mapped after the mapping was destroyed");
		bool threw = false;
		try {
			Mmap gone {std::filesystem::path(path + ".missing")};
		} catch (std::exception const&) { threw = true; }
		CHECK("mapped-missing", threw, "mapping a missing file did not fail");
	}
	void empty_file(pbt::Case& c) {
		std::string path = pbt::scratch_dir() + "/empty.bin";
		write_file(path, {});
		auto r = Read::from(std::filesystem::path(path));
		CHECK("empty", r->eof() && r->tell() == 0, "empty file is not at its end");
		char b[4] = {1, 1, 1, 1};
		CHECK("empty", r->read(b, c.src.below(5)) == 0 && b[0] == 1, "bytes read from an empty file");
		CHECK("empty", r->read_line(true).empty() && r->read_int() == 0, "values read from an empty file");
		c.log << "empty file";
	}
}

int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C01",
	    "Random contents (binary and line oriented, 0-400 bytes) and operation histories (up to 41 typed reads, raw reads, lines, seeks) per back end, compared after every operation with a byte-array cursor model; non-trivial: at least 3 operations on at least 4 bytes.",
	    {"Seeking beyond the end is only driven on memory-backed streams; the host decides about it elsewhere."},
	    {{"history", 800000, 20, history}, {"agree", 60000, 10, agree}, {"mapped", 4000, 20, mapped}, {"empty-file", 8, 1, empty_file}}};
	cfg.quick_seconds = 60;
	return pbt::main(argc, argv, cfg);
}
