#include "vfsmodel.hh"
#include "mutate.hh"
using namespace zenkit;

namespace {
	// Everything mounted has to be listable and readable.
	size_t walk(VfsNode const& n, size_t& bytes) {
		size_t c = 1;
		if (n.type() == VfsNodeType::DIRECTORY) {
			for (auto& k : n.children()) c += walk(k, bytes);
		} else {
			auto r = n.open_read();
			CHECK("open", r != nullptr, "a mounted file cannot be opened");
			r->seek(0, Whence::END);
			auto size = r->tell();
			r->seek(0, Whence::BEG);
			Bytes b(size);
			auto got = r->read(b.data(), size);
			CHECK("read", got == size, "only " << got << " of " << size << " bytes readable");
			volatile uint8_t x = 0;
			for (auto q : b) x = static_cast<uint8_t>(x + static_cast<uint8_t>(q));
			bytes += size;
		}
		return c;
	}
	void mount_it(pbt::Case& c, Bytes const& data) {
		auto& s = c.src;
		Vfs v;
		Exact ex(data);
		bool threw = false;
		auto how = s.below(3);
		auto pol = static_cast<OB>(s.below(4));
		try {
			if (how < 2) {
				auto r = ex.open();
				v.mount_disk(r.get(), pol);
			} else {
				auto p = pbt::scratch_dir() + "/x.vdf";
				write_file(p, data);
				v.mount_disk(std::filesystem::path(p), pol);
			}
		} catch (Error const&) { threw = true; }
		size_t bytes = 0, nodes = walk(v.root(), bytes);
		for (auto q : {"A", "DATA", "data/x.zen", "WORK/A/a.b.c"}) (void) v.resolve(q), (void) v.find(q);
		c.log << (threw ? " -> rejected" : " -> mounted") << ", " << nodes << " nodes";
		c.tag(threw ? "rejected" : "mounted");
		c.nontrivial(nodes > 1 || threw);
	}
	Bytes valid(pbt::Src& s) {
		auto t = gen_time(s);
		auto root = gen_root(s, 3, t, 9);
		if (s.flip()) {
			Vfs v;
			for (auto& [k, x] : root.kids) v.mount(m_to_vfs(x), "/");
			Bytes out;
			auto w = Write::to(&out);
			v.save(w.get(), s.flip() ? GameVersion::GOTHIC_1 : GameVersion::GOTHIC_2, t);
			return out;
		}
		return m_write_vdf(root, std::string_view(s.flip() ? SIG1 : SIG2, 16), m_dos(t), 296, s.chance(1, 4));
	}
	void corrupt(pbt::Case& c) {
		auto& s = c.src;
		auto b = valid(s);
		size_t k = 1 + s.below(4);
		for (size_t i = 0; i < k; ++i) {
			if (b.size() > 376 && s.flip()) {
				// structured: a field of a catalog entry
				size_t n = (b.size() - 296) / 80, e = s.below(std::min<size_t>(n, 40)), f = 296 + e * 80 + 64 + 4 * s.below(4);
				uint32_t v;
				switch (s.below(8)) {
				case 0: v = static_cast<uint32_t>(s.below(8)); break;
				case 1: v = static_cast<uint32_t>(b.size() - s.below(90)); break;
				case 2: v = 0xFFFFFFFFu - static_cast<uint32_t>(s.below(4096)); break;
				case 3: v = 0x80000000u | static_cast<uint32_t>(s.below(2)) << 30; break;
				case 4: v = static_cast<uint32_t>(s.below(2)) << 30; break;
				case 5: v = static_cast<uint32_t>(s.below(64)); break;
				case 6: v = 0x03333333u + static_cast<uint32_t>(s.below(32)); break; // times 80 wraps around
				default: v = s.u32();
				}
				if (f + 4 <= b.size()) memcpy(b.data() + f, &v, 4);
				c.log << " field@" << f << "=" << std::hex << v << std::dec;
			} else
				mutate(s, b, c.log);
		}
		mount_it(c, b);
	}
	void cut(pbt::Case& c) {
		auto& s = c.src;
		auto b = valid(s);
		size_t n = s.below(b.size() + 1);
		if (s.flip() && b.size() > 296) n = std::min<size_t>(b.size(), 296 + s.below(500));
		b.resize(n);
		c.log << "cut to " << n;
		mount_it(c, b);
	}
	void noise(pbt::Case& c) {
		auto& s = c.src;
		Out o;
		std::string cm(256, ' ');
		o.str(cm).str(std::string_view(SIG2, 16)).u32(s.u32()).u32(s.u32()).u32(s.u32()).u32(s.u32()).u32(s.flip() ? 296 : s.u32()).u32(s.chance(1, 4) ? s.u32() : 0x50);
		auto x = s.bytes(2000);
		o.raw(x.data(), x.size());
		if (s.chance(1, 6)) o.b[256 + s.below(16)] ^= 1;
		c.log << "noise of " << x.size() << " bytes";
		mount_it(c, o.bytes());
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C25",
	    "Valid archives (library- and model-written) with 1-4 corruptions (catalog fields incl. wrapping extents, cycles, missing end marks; byte flips, block copies, cuts), truncations at every kind of position, and noise behind a valid header; run under AddressSanitizer with exact-size buffers, a 10 s limit per case, and every mounted file read completely. Non-trivial: something was mounted, or the archive was rejected.",
	    {"One allocation above 1 GB counts as out of memory (std::bad_alloc)."},
	    {{"corrupt", 150000, 20, corrupt}, {"truncate", 60000, 20, cut}, {"noise", 60000, 20, noise}}};
	return pbt::main(argc, argv, cfg);
}
