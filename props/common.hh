// Helpers shared by the check harnesses.
#pragma once
#include "pbt.hh"

#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/Stream.hh>

#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using Bytes = std::vector<std::byte>;

inline Bytes to_bytes(std::vector<uint8_t> const& v) {
	Bytes b(v.size());
	if (!v.empty()) memcpy(b.data(), v.data(), v.size());
	return b;
}
inline Bytes to_bytes(std::string_view v) {
	Bytes b(v.size());
	if (!v.empty()) memcpy(b.data(), v.data(), v.size());
	return b;
}
inline std::string bhex(Bytes const& b, size_t max = 48) { return pbt::hex(b.data(), b.size(), max); }
inline void write_file(std::string const& path, Bytes const& b) {
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f.write(reinterpret_cast<char const*>(b.data()), static_cast<long>(b.size()));
}
inline Bytes read_file(std::filesystem::path const& path) {
	std::ifstream f(path, std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(f)), {});
	return to_bytes(s);
}
// A heap block of exactly the given bytes, so that the sanitizer sees every access outside of it.
struct Exact {
	std::unique_ptr<std::byte[]> p;
	size_t n;
	explicit Exact(Bytes const& b) : p(new std::byte[b.size()]), n(b.size()) {
		if (n) memcpy(p.get(), b.data(), n);
	}
	std::unique_ptr<zenkit::Read> open() const { return zenkit::Read::from(p.get(), n); }
};
/// The bytes behind one of the kinds of streams
struct Opened {
	enum { MEMORY, BORROWED, OWNED, TEXT, HANDLE, FILE_ON_DISK, KINDS };
	Exact e;
	Bytes const& b;
	std::unique_ptr<std::istringstream> text;
	FILE* file {nullptr};
	explicit Opened(Bytes const& f) : e(f), b(f) {}
	Opened(Opened const&) = delete;
	~Opened() { if (file) fclose(file); }
	std::unique_ptr<zenkit::Read> open(int kind) {
		if (file) fclose(file), file = nullptr;
		switch (b.empty() ? MEMORY : kind) {
		case BORROWED: return zenkit::Read::from(&b);
		case OWNED: return zenkit::Read::from(b);
		case TEXT:
			text = std::make_unique<std::istringstream>(std::string(reinterpret_cast<char const*>(b.data()), b.size()));
			return zenkit::Read::from(static_cast<std::istream*>(text.get()));
		case HANDLE:
			file = fmemopen(const_cast<std::byte*>(b.data()), b.size(), "rb");
			return zenkit::Read::from(file);
		case FILE_ON_DISK:
			file = tmpfile();
			if (file == nullptr) return e.open();
			fwrite(b.data(), 1, b.size(), file), rewind(file);
			return zenkit::Read::from(file);
		default: return e.open();
		}
	}
};
inline Bytes slurp(zenkit::Read& r) {
	Bytes out;
	std::byte buf[4096];
	for (;;) {
		size_t n = r.read(buf, sizeof buf);
		out.insert(out.end(), buf, buf + n);
		if (n < sizeof buf) break;
	}
	return out;
}
inline uint32_t fbits(float f) {
	uint32_t u;
	memcpy(&u, &f, 4);
	return u;
}
inline float bitsf(uint32_t u) {
	float f;
	memcpy(&f, &u, 4);
	return f;
}
// Little-endian byte builder, independent of the library's Write.
struct Out {
	std::vector<uint8_t> b;
	Out& u8(uint64_t v) { b.push_back(static_cast<uint8_t>(v)); return *this; }
	Out& u16(uint64_t v) { return u8(v).u8(v >> 8); }
	Out& u32(uint64_t v) { return u16(v).u16(v >> 16); }
	Out& f32(float v) { return u32(fbits(v)); }
	Out& raw(void const* p, size_t n) { auto* c = static_cast<uint8_t const*>(p); b.insert(b.end(), c, c + n); return *this; }
	Out& str(std::string_view s) { return raw(s.data(), s.size()); }
	Out& line(std::string_view s) { return str(s).u8('\n'); }
	Out& cat(Out const& o) { b.insert(b.end(), o.b.begin(), o.b.end()); return *this; }
	Out& chunk(unsigned type, Out const& body) { return u16(type).u32(body.b.size()).cat(body); }
	void put32(size_t at, uint64_t v) { for (int i = 0; i < 4; ++i) b[at + i] = static_cast<uint8_t>(v >> (8 * i)); }
	size_t size() const { return b.size(); }
	Bytes bytes() const { return to_bytes(b); }
};
// Every message is formatted (and so its arguments read), none is shown.
inline void quiet() { zenkit::Logger::set(zenkit::LogLevel::TRACE, [](zenkit::LogLevel, char const* name, char const* msg) { if (!name || !msg) abort(); }); }
