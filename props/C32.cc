// C32: compressed archives hold the same files as others.
#define _ZK_WITH_ZIPPED_VDF 1
#include "vfsmodel.hh"
#include "damage.hh"
#include <zlib.h>
using namespace zenkit;

namespace {
	bool sound(std::string const& name) {
		auto n = lower(name);
		return n.size() >= 4 && (n.substr(n.size() - 4) == ".wav" || n.substr(n.size() - 4) == ".ogg");
	}
	Bytes content(pbt::Src& s, uint32_t block) {
		static std::vector<int> const near {-1, 0, 1};
		size_t n = 0;
		switch (s.below(6)) {
		case 0: n = s.len(3); break;
		case 1: n = s.below(400); break;
		case 2: n = block * (1 + s.below(3)) + s.pick(near); break;
		case 3: n = s.below(block * 4); break;
		case 4: n = 0; break;
		default: n = s.below(block) + 1;
		}
		n = std::min<size_t>(n, 40000);
		Bytes b(n);
		uint64_t x = s.u32() | 1;
		unsigned kind = s.below(4);
		for (size_t i = 0; i < n; ++i) {
			x = x * 6364136223846793005ull + 1442695040888963407ull;
			b[i] = std::byte(kind == 0 ? 0 : kind == 1 ? x >> 56 : kind == 2 ? (i / 7) & 0xFF : "GOTHIC"[(x >> 60) % 6]);
		}
		return b;
	}
	void fill(pbt::Src& s, MNode& n, uint32_t block) {
		if (!n.dir) {
			n.data = content(s, block);
			if (sound(n.name)) for (size_t i = 0; i < 4 && i < n.data.size(); ++i) n.data[i] = std::byte("RIFF"[i]); // as sounds begin
			return;
		}
		for (auto& [k, v] : n.kids) fill(s, v, block);
	}
	MNode tree(pbt::Src& s, uint32_t block, bool empty_dirs) {
		std::function<MNode(std::string, int)> make = [&](std::string name, int depth) {
			MNode n;
			n.name = name;
			n.dir = depth == 3 || (depth > 0 && s.chance(1, 3));
			if (n.dir) for (size_t i = 0, k = s.len(4); i < k; ++i) {
				auto nm = gen_name(s);
				if (s.chance(1, 3)) nm = nm.substr(0, 59) + s.pick({".WAV", ".wav", ".ogg", ".OGG", ".WAVE", ".wa", "wav", ".Ogg"});
				auto c = make(nm, depth - 1);
				if (c.dir && c.kids.empty() && !empty_dirs) continue;
				n.kids.emplace(lower(c.name), std::move(c));
			}
			return n;
		};
		auto n = make("/", 3);
		fill(s, n, block);
		return n;
	}
	Bytes deflated(Bytes const& b, int level) {
		Bytes o(compressBound(b.size()));
		auto n = static_cast<uLongf>(o.size());
		compress2(reinterpret_cast<Bytef*>(o.data()), &n, reinterpret_cast<Bytef const*>(b.data()), b.size(), level);
		o.resize(n);
		return o;
	}
	Bytes zipped(Bytes const& b, uint32_t block, int level) {
		Out o;
		o.u32(b.size()).u32(block).u32((b.size() + block - 1) / block);
		for (size_t at = 0; at < b.size(); at += block) {
			Bytes part(b.begin() + at, b.begin() + std::min<size_t>(b.size(), at + block));
			auto z = deflated(part, level);
			o.u32(part.size()).u32(z.size()).u32(block).raw(z.data(), z.size());
		}
		return o.bytes();
	}
	/// A history of reading and seeking on one stream.
	void history(pbt::Case& k, Read& r, Bytes const& d, std::string const& path) {
		auto& s = k.src;
		size_t at = r.tell();
		auto read = [&](size_t n) {
			Bytes got(n);
			size_t have = r.read(got.data(), n), want = std::min(n, d.size() - at);
			CHECK("read", have == want && std::equal(got.begin(), got.begin() + want, d.begin() + at), path << ": reading " << n << " bytes at " << at << " of " << d.size() << " gives " << have << " bytes or others");
			at += want;
		};
		for (size_t i = 0, n = 1 + s.len(14); i < n; ++i) {
			switch (s.below(6)) {
			case 0: read(s.below(20)); break;
			case 1: read(s.below(d.size() + 10)); break;
			case 2: at = s.below(d.size() + 1), r.seek(static_cast<ssize_t>(at), Whence::BEG); break;
			case 3: { size_t to = s.below(d.size() + 1); r.seek(static_cast<ssize_t>(to) - static_cast<ssize_t>(at), Whence::CUR), at = to; break; }
			case 4: { size_t back = s.below(d.size() + 1); r.seek(-static_cast<ssize_t>(back), Whence::END), at = d.size() - back; break; }
			default:
				if (d.size() - at >= 4) {
					uint32_t w;
					memcpy(&w, d.data() + at, 4);
					CHECK("read-uint", r.read_uint() == w, path << ": the integer at " << at << " differs");
					at += 4;
				}
			}
			CHECK("tell", r.tell() == at, path << ": at " << r.tell() << " instead of " << at);
			CHECK("eof", r.eof() == (at >= d.size()), path << ": " << (at >= d.size() ? "the end is not seen" : "an end is seen") << " at " << at << " of " << d.size());
		}
	}
	void histories(pbt::Case& k, VfsNode const& v, MNode const& m, std::string const& path) {
		if (m.dir) {
			for (auto& c : v.children()) histories(k, c, m.kids.at(lower(c.name())), path + "/" + c.name());
			return;
		}
		if (k.src.chance(1, 3)) return;
		auto a = v.open_read(), b = v.open_read(); // independent of each other
		history(k, *a, m.data, path), history(k, *b, m.data, path + " (opened again)"), history(k, *a, m.data, path);
	}
	CmpOpt const OPT {true, false, false};
	void mounted(pbt::Case& k, Bytes const& file, MNode const& m) {
		auto& s = k.src;
		auto path = pbt::scratch_dir() + "/a.vdf";
		Vfs v;
		Exact e {file};
		if (s.flip()) {
			auto r = e.open();
			v.mount_disk(r.get());
		} else {
			write_file(path, file);
			v.mount_disk(std::filesystem::path(path));
		}
		m_compare(v.root(), m, "", OPT);
		histories(k, v.root(), m, "");
		if (!s.chance(1, 3)) return;
		// what was mounted can be saved, compressed or not, and files can be mounted elsewhere
		Bytes again;
		bool comp = s.flip();
		{
			auto w = Write::to(&again);
			comp ? v.save_compressed(w.get(), GameVersion::GOTHIC_2, 1000000000) : v.save(w.get(), GameVersion::GOTHIC_2, 1000000000);
		}
		Vfs u;
		Exact f {again};
		auto r = f.open();
		u.mount_disk(r.get());
		m_compare(u.root(), m, comp ? "saved compressed: " : "saved uncompressed: ", OPT);
		Vfs t;
		t.mkdir("sub/dir");
		for (auto& c : v.root().children()) t.mount(c, "sub/dir");
		m_compare(*t.resolve("sub/dir"), m, "mounted elsewhere: ", OPT);
	}
	void describe(pbt::Case& k, MNode const& m) {
		m_dump(k.log, m);
		size_t files = 0;
		m_count(m, &files);
		if (files >= 2) k.nontrivial();
	}
	void roundtrip(pbt::Case& k) {
		auto& s = k.src;
		auto m = tree(s, 8192, true);
		describe(k, m);
		Vfs v;
		for (auto& [n, x] : m.kids) v.mount(m_to_vfs(x), "/");
		Bytes file;
		{
			auto w = Write::to(&file);
			v.save_compressed(w.get(), s.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2, 1000000000);
		}
		m_compare(v.root(), m, "after saving: ", OPT);
		// read without the library
		auto u32 = [&](size_t at) {
			CHECK("layout", at + 4 <= file.size(), "the archive ends at " << file.size() << ", before " << at + 4);
			uint32_t x;
			memcpy(&x, file.data() + at, 4);
			return x;
		};
		CHECK("layout-flags", u32(292) == 0xA0, "the volume flags are " << u32(292));
		CHECK("layout-size", u32(284) == file.size(), "header says " << u32(284) << " bytes, the archive has " << file.size());
		uint32_t cat = u32(288), n = u32(272);
		size_t files = 0;
		CHECK("layout-count", n == m_count(m, &files), n << " entries are counted");
		CHECK("layout-count", u32(276) == files, u32(276) << " files are counted");
		std::function<void(MNode const&, size_t)> list = [&](MNode const& d, size_t i) {
			for (size_t left = d.kids.size(); left--; ++i) {
				size_t at = cat + i * 80;
				CHECK("layout-catalog", i < n && at + 80 <= file.size(), "the catalogue ends early");
				auto name = rtrim(std::string(reinterpret_cast<char const*>(file.data()) + at, 64));
				auto it = d.kids.find(lower(name));
				CHECK("layout-catalog", it != d.kids.end(), "unexpected entry " << name);
				auto& c = it->second;
				uint32_t off = u32(at + 64), size = u32(at + 68), type = u32(at + 72);
				CHECK("layout-catalog", bool(type & 0x80000000u) == c.dir && bool(type & 0x40000000u) == !left, name << " has type " << type);
				if (c.dir) { list(c, off); continue; }
				CHECK("layout-catalog", size == c.data.size(), name << " has size " << size << " instead of " << c.data.size());
				if (sound(name)) {
					CHECK("layout-sound", size_t {off} + size <= file.size() && std::equal(c.data.begin(), c.data.end(), file.begin() + off), name << " is a sound and not stored as it is");
					continue;
				}
				uint32_t bs = u32(off + 4), count = u32(off + 8);
				CHECK("layout-stream", u32(off) == size && bs > 0 && count == (size + bs - 1) / bs, name << ": stream of " << u32(off) << " bytes, " << count << " blocks of " << bs);
				size_t p = off + 12;
				Bytes all;
				for (uint32_t b = 0; b < count; ++b) {
					uint32_t src = u32(p), cmp = u32(p + 4);
					CHECK("layout-block", u32(p + 8) == bs && src == std::min<size_t>(bs, size - all.size()), name << ": block " << b << " has " << src << " bytes of " << u32(p + 8));
					CHECK("layout-block", p + 12 + cmp <= file.size(), name << ": block " << b << " does not end in the archive");
					Bytes part(src);
					uLongf len = src;
					int rc = uncompress(reinterpret_cast<Bytef*>(part.data()), &len, reinterpret_cast<Bytef const*>(file.data() + p + 12), cmp);
					CHECK("layout-block", rc == Z_OK && len == src, name << ": block " << b << " cannot be uncompressed");
					all.insert(all.end(), part.begin(), part.end());
					p += 12 + cmp;
				}
				CHECK("layout-content", all == c.data, name << " holds other bytes");
			}
		};
		if (!m.kids.empty()) list(m, 0);
		mounted(k, file, m);
	}
	Bytes encoded(pbt::Case& k, MNode& m) {
		auto& s = k.src;
		static std::vector<uint32_t> const sizes {1, 2, 7, 64, 1000, 4096, 8192, 65536};
		uint32_t block = s.chance(1, 3) ? 1 + s.below(5000) : s.pick(sizes);
		m = tree(s, std::max<uint32_t>(block, 50), false);
		if (block < 16) { // many blocks
			std::function<void(MNode&)> cut = [&](MNode& n) { n.data.resize(std::min<size_t>(n.data.size(), 300)); for (auto& [q, v] : n.kids) cut(v); };
			cut(m);
		}
		k.log << "blocks of " << block << " ";
		return m_write_vdf(m, SIG2, m_dos(1000000000), 296, false, [&](MNode const& n) {
			int level = static_cast<int>(s.below(10));
			auto z = sound(n.name) ? n.data : zipped(n.data, block, level);
			for (size_t i = s.chance(1, 4) ? s.below(20) : 0; i > 0; --i) z.push_back(std::byte {0xEE});
			return z;
		});
	}
	void decode(pbt::Case& k) {
		MNode m;
		auto f = encoded(k, m);
		describe(k, m);
		mounted(k, f, m);
	}
	void damaged(pbt::Case& k) {
		auto& s = k.src;
		MNode m;
		auto f = encoded(k, m);
		describe(k, m);
		for (size_t i = 0, n = 1 + s.len(4); i < n && !f.empty(); ++i) {
			size_t lo = s.flip() ? std::min<size_t>(f.size() - 1, 272) : 0;
			size_t at = lo + s.below(f.size() - lo);
			switch (s.below(4)) {
			case 0: f[at] = std::byte(s.u8()); break;
			case 1: f.resize(at); break;
			default: {
				uint32_t v = s.pick({0u, 1u, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 8192u, 0x10000u, 0x40000000u, (unsigned) s.below(70000)});
				for (int j = 0; j < 4 && at + j < f.size(); ++j) f[at + j] = std::byte(v >> (8 * j));
			}
			}
			k.log << " damaged at " << at;
		}
		Vfs v;
		Exact e {f};
		try {
			auto r = e.open();
			v.mount_disk(r.get());
		} catch (std::exception const&) {
			return;
		}
		std::function<void(VfsNode const&)> visit = [&](VfsNode const& n) {
			if (n.type() == VfsNodeType::DIRECTORY) {
				for (auto& c : n.children()) visit(c);
				return;
			}
			auto r = n.open_read();
			CHECK("open", r != nullptr, "a file cannot be opened");
			for (int i = 0; i < 6; ++i) {
				size_t len = s.below(10000);
				Bytes b(len);
				auto before = r->tell();
				auto got = r->read(b.data(), len);
				CHECK("damaged-read", got <= len && r->tell() == before + got, "reading " << len << " bytes gave " << got << " and moved from " << before << " to " << r->tell());
				r->seek(static_cast<ssize_t>(s.below(20000)), s.pick({Whence::BEG, Whence::CUR}));
			}
		};
		visit(v.root());
	}
}

int main(int argc, char** argv) {
	setenv("TZ", "UTC", 1);
	tzset();
	quiet();
	pbt::Config cfg {"C32", "at least two files in the archive",
		{"built with compressed archives enabled and zlib in place of miniz", "sounds begin as sounds do: a raw file that looks like a compressed one is taken for one"},
		{{"roundtrip", 20000, 20, roundtrip}, {"decode", 20000, 20, decode}, {"damaged", 20000, 20, damaged}}};
	return pbt::main(argc, argv, cfg);
}
