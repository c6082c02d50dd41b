#include "common.hh"
#include <sstream>
using namespace zenkit;

namespace {
	enum Kind { FIXED, VECTOR, PATH, CFILE, OSTREAM };
	char const* const KIND[] = {"buffer", "vector", "path", "FILE*", "ostream"};
	enum class Ck : uint16_t { A = 0x1234 };

	struct Model {
		std::string d;
		size_t pos {0};
		size_t limit {SIZE_MAX};
		size_t put(void const* p, size_t n) {
			n = std::min(n, limit - pos);
			if (pos + n > d.size()) d.resize(pos + n, '\0');
			if (n) memcpy(d.data() + pos, p, n);
			pos += n;
			return n;
		}
		void num(uint64_t v, size_t n) {
			std::string s;
			for (size_t i = 0; i < n; ++i) s += static_cast<char>(v >> (8 * i));
			put(s.data(), n);
		}
		void f(float v) { num(fbits(v), 4); }
	};
	struct Ctx {
		pbt::Case& c;
		pbt::Src& s;
		Write* w;
		Model& m;
		Kind kind;
		bool seeks;
		size_t ops {0};
		void one(int depth) {
			++ops;
			auto op = s.below(depth < 3 ? 20 : 18);
			char const* name = "";
			switch (op) {
			case 0: { auto v = static_cast<char>(s.u8()); name = "char"; w->write_char(v); m.num(static_cast<uint8_t>(v), 1); break; }
			case 1: { auto v = s.i8(); name = "byte"; w->write_byte(v); m.num(static_cast<uint8_t>(v), 1); break; }
			case 2: { auto v = s.u8(); name = "ubyte"; w->write_ubyte(v); m.num(v, 1); break; }
			case 3: { auto v = s.i16(); name = "short"; w->write_short(v); m.num(static_cast<uint16_t>(v), 2); break; }
			case 4: { auto v = s.u16(); name = "ushort"; w->write_ushort(v); m.num(v, 2); break; }
			case 5: { auto v = s.i32(); name = "int"; w->write_int(v); m.num(static_cast<uint32_t>(v), 4); break; }
			case 6: { auto v = s.u32(); name = "uint"; w->write_uint(v); m.num(v, 4); break; }
			case 7: { auto v = s.finite(); name = "float"; w->write_float(v); m.f(v); break; }
			case 8: { Vec2 v {s.finite(), s.finite()}; name = "vec2"; w->write_vec2(v); Model& q = m; q.num(fbits(v.x) | uint64_t {fbits(v.y)} << 32, 8); break; }
			case 9: { Vec3 v {s.finite(), s.finite(), s.finite()}; name = "vec3"; w->write_vec3(v); Out o; o.f32(v.x).f32(v.y).f32(v.z); m.put(o.b.data(), o.size()); break; }
			case 10: { Mat3 v; for (unsigned i = 0; i < 9; ++i) v.pointer()[i] = s.finite(); name = "mat3"; w->write_mat3(v); Out o; for (unsigned r = 0; r < 3; ++r) for (unsigned k = 0; k < 3; ++k) o.f32(v[k][r]); m.put(o.b.data(), o.size()); break; }
			case 11: { Mat4 v; for (unsigned i = 0; i < 16; ++i) v.pointer()[i] = s.finite(); name = "mat4"; w->write_mat4(v); Out o; for (unsigned r = 0; r < 4; ++r) for (unsigned k = 0; k < 4; ++k) o.f32(v[k][r]); m.put(o.b.data(), o.size()); break; }
			case 12: { auto v = s.str(30); name = "string"; w->write_string(v); m.put(v.data(), v.size()); break; }
			case 13: { auto v = s.str(30); name = "string0"; w->write_string0(v); m.put(v.data(), v.size()); m.num(0, 1); break; }
			case 14: { auto v = s.str(30); name = "line"; w->write_line(v); m.put(v.data(), v.size()); m.num('\n', 1); break; }
			case 15: {
				auto v = s.bytes(s.chance(1, 8) ? 5000 : 100);
				name = "raw";
				size_t n = w->write(v.data(), v.size()), e = m.put(v.data(), v.size());
				CHECK("count", n == e, "write of " << v.size() << " bytes reported " << n << ", expected " << e);
				break;
			}
			case 16:
			case 17: {
				if (!seeks || depth > 0) return;
				name = "seek";
				// A fixed buffer ends at its length, everything else at what was written so far.
				size_t end = kind == FIXED ? m.limit : m.d.size();
				size_t t = s.below(end + 1);
				if (kind == FIXED && m.limit == 400000) t = s.below(100000); // leave room behind
				auto wh = static_cast<Whence>(s.below(3));
				auto off = static_cast<ssize_t>(t) - (wh == Whence::BEG ? 0 : wh == Whence::CUR ? static_cast<ssize_t>(m.pos) : static_cast<ssize_t>(end));
				w->seek(off, wh);
				if (t > m.d.size()) m.d.resize(t, '\0');
				m.pos = t;
				c.tag("op:seek");
				break;
			}
			default: {
				name = "chunk";
				c.log << " chunk{";
				c.tag("op:chunk");
				auto type = s.u16();
				m.num(type, 2);
				size_t at = m.pos;
				m.num(0, 4);
				size_t body = m.pos, n = s.len(6);
				proto::write_chunk<Ck>(w, static_cast<Ck>(type), [&](Write* iw) {
					CHECK("chunk-stream", iw == w, "the chunk body gets another stream");
					for (size_t i = 0; i < n; ++i) one(depth + 1);
				});
				size_t end = m.pos;
				m.pos = at;
				m.num(end - body, 4);
				m.pos = end;
				c.log << "}";
				break;
			}
			}
			c.log << " " << name;
			CHECK("position", w->tell() == m.pos, "position is " << w->tell() << " after " << name << ", expected " << m.pos);
		}
	};

	void history(pbt::Case& c) {
		auto& s = c.src;
		auto kind = static_cast<Kind>(s.below(5));
		Model m;
		std::string path = pbt::scratch_dir() + "/out.bin";
		std::ostringstream oss;
		Bytes vec;
		std::unique_ptr<std::byte[]> buf;
		FILE* fp = nullptr;
		std::unique_ptr<Write> w;
		c.tag(std::string("sink:") + KIND[kind]);
		bool small = false;
		switch (kind) {
		case FIXED:
			small = s.flip();
			m.limit = small ? s.len(200) : 400000;
			buf.reset(new std::byte[m.limit]());
			m.d.assign(m.limit, '\0');
			w = Write::to(buf.get(), m.limit);
			break;
		case VECTOR:
			vec = to_bytes(s.bytes(s.flip() ? 0 : 200)); // the vector may hold something already
			m.d.assign(reinterpret_cast<char*>(vec.data()), vec.size());
			w = Write::to(&vec);
			break;
		case PATH:
			if (s.flip()) write_file(path, to_bytes("previous contents of the file, longer than most"));
			w = Write::to(std::filesystem::path(path));
			break;
		case CFILE: fp = fopen(path.c_str(), "wb"); w = Write::to(fp); break;
		case OSTREAM: w = Write::to(&oss); break;
		}
		struct Close { FILE* f; ~Close() { if (f) fclose(f); } } closer {fp};
		c.log << KIND[kind] << (kind == FIXED ? "[" + std::to_string(m.limit) + "]" : "") << ":";
		Ctx x {c, s, w.get(), m, kind, true};
		size_t n = 1 + s.len(30);
		for (size_t i = 0; i < n; ++i) {
			// chunk back-patching needs room: no chunks in tight buffers
			x.one(small ? 3 - (int) 0 : 0);
		}
		if (small) c.tag("tight-buffer");
		// read out
		Bytes got;
		if (kind == PATH) { w.reset(); got = read_file(path); }
		else if (kind == CFILE) { fflush(fp); got = read_file(path); }
		else if (kind == OSTREAM) got = to_bytes(oss.str());
		else if (kind == VECTOR) got = vec;
		else got.assign(buf.get(), buf.get() + m.limit);
		auto want = to_bytes(m.d);
		if (got != want) {
			size_t i = 0;
			while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
			CHECK("bytes", false, "destination has " << got.size() << " bytes, expected " << want.size() << "; first difference at " << i);
		}
		c.nontrivial(x.ops >= 3);
	}
	// Whatever a typed write produced, the matching typed read returns.
	void mirror(pbt::Case& c) {
		auto& s = c.src;
		Bytes vec;
		auto w = Write::to(&vec);
		struct V { int op; uint32_t u; std::vector<float> f; std::string t; };
		std::vector<V> vs(1 + s.len(25));
		for (auto& v : vs) {
			v.op = static_cast<int>(s.below(12));
			v.u = s.u32();
			switch (v.op) {
			case 0: w->write_char(static_cast<char>(v.u)); break;
			case 1: w->write_byte(static_cast<int8_t>(v.u)); break;
			case 2: w->write_ubyte(static_cast<uint8_t>(v.u)); break;
			case 3: w->write_short(static_cast<int16_t>(v.u)); break;
			case 4: w->write_ushort(static_cast<uint16_t>(v.u)); break;
			case 5: w->write_int(static_cast<int32_t>(v.u)); break;
			case 6: w->write_uint(v.u); break;
			case 7: w->write_vec2({(v.f = {s.finite(), s.finite()})[0], v.f[1]}); break;
			case 8: w->write_vec3({(v.f = {s.finite(), s.finite(), s.finite()})[0], v.f[1], v.f[2]}); break;
			case 9: { Mat3 m; for (int i = 0; i < 9; ++i) v.f.push_back(m.pointer()[i] = s.finite()); w->write_mat3(m); break; }
			case 10: { Mat4 m; for (int i = 0; i < 16; ++i) v.f.push_back(m.pointer()[i] = s.finite()); w->write_mat4(m); break; }
			case 11: v.t = s.str(20); w->write_line(v.t); break;
			}
			c.log << v.op << " ";
		}
		Exact e(vec);
		auto r = e.open();
		size_t k = 0;
		for (auto& v : vs) {
			bool ok = true;
			auto same = [&](float const* p) { for (size_t i = 0; i < v.f.size(); ++i) ok = ok && fbits(p[i]) == fbits(v.f[i]); };
			switch (v.op) {
			case 0: ok = r->read_char() == static_cast<char>(v.u); break;
			case 1: ok = r->read_byte() == static_cast<int8_t>(v.u); break;
			case 2: ok = r->read_ubyte() == static_cast<uint8_t>(v.u); break;
			case 3: ok = r->read_short() == static_cast<int16_t>(v.u); break;
			case 4: ok = r->read_ushort() == static_cast<uint16_t>(v.u); break;
			case 5: ok = r->read_int() == static_cast<int32_t>(v.u); break;
			case 6: ok = r->read_uint() == v.u; break;
			case 7: { auto x = r->read_vec2(); same(x.pointer()); break; }
			case 8: { auto x = r->read_vec3(); same(x.pointer()); break; }
			case 9: { auto x = r->read_mat3(); same(x.pointer()); break; }
			case 10: { auto x = r->read_mat4(); same(x.pointer()); break; }
			case 11: ok = r->read_line(false) == v.t; break;
			}
			CHECK("mirror", ok, "value " << k << " (kind " << v.op << ") read back differently");
			++k;
		}
		CHECK("mirror-end", r->eof(), "bytes left over");
		c.nontrivial(vs.size() >= 3);
	}
}

int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C02",
	    "Random histories of typed writes, raw writes, in-range seeks and nested chunks on every destination kind, compared byte for byte (and position after every operation) with a byte-array model, plus write/read mirrors; non-trivial: at least 3 operations.",
	    {"Seeks stay inside what was written (or inside the fixed buffer); seeking beyond the end of a host file is the host's business."},
	    {{"history", 300000, 20, history}, {"mirror", 300000, 10, mirror}}};
	return pbt::main(argc, argv, cfg);
}
