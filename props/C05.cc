#include "vfsmodel.hh"
#include <time.h>
using namespace zenkit;

namespace {
	// Independent reader of the catalog.
	MNode decode(Bytes const& b, int64_t t, size_t& entries, size_t& files) {
		auto u32 = [&](size_t at) {
			CHECK("catalog", at + 4 <= b.size(), "catalog field outside the archive at " << at);
			uint32_t v;
			memcpy(&v, b.data() + at, 4);
			return v;
		};
		uint32_t cat = u32(256 + 16 + 16);
		CHECK("catalog", cat == 296, "catalog offset is " << cat);
		size_t n = u32(272);
		entries = files = 0;
		std::vector<bool> seen(n, false);
		std::vector<std::pair<size_t, size_t>> extents;
		std::function<void(MNode&, size_t)> list = [&](MNode& d, size_t i) {
			for (;; ++i) {
				CHECK("catalog", i < n, "directory listing runs past the " << n << " catalog entries");
				CHECK("catalog", !seen[i], "catalog entry " << i << " belongs to two directories");
				seen[i] = true;
				++entries;
				size_t at = cat + i * 80;
				CHECK("catalog", at + 80 <= b.size(), "catalog entry outside the archive");
				MNode k;
				k.name = rtrim(std::string(reinterpret_cast<char const*>(b.data()) + at, 64));
				uint32_t off = u32(at + 64), size = u32(at + 68), type = u32(at + 72);
				k.dir = (type & 0x80000000u) != 0;
				k.time = t;
				if (k.dir) {
					if (off < n) list(k, off);
				} else {
					++files;
					CHECK("catalog", size_t {off} + size <= b.size() && off >= cat + n * 80, "file data of " << k.name << " outside the data section");
					k.data.assign(b.begin() + off, b.begin() + off + size);
					if (size) extents.push_back({off, size});
				}
				CHECK("catalog", d.kids.emplace(lower(k.name), k).second, "two entries named " << k.name);
				if (type & 0x40000000u) break;
			}
		};
		MNode root;
		root.name = "/";
		if (n) list(root, 0);
		CHECK("catalog", entries == n, entries << " of " << n << " catalog entries reachable");
		std::sort(extents.begin(), extents.end());
		for (size_t i = 1; i < extents.size(); ++i) CHECK("catalog", extents[i - 1].first + extents[i - 1].second <= extents[i].first, "file contents overlap");
		return root;
	}
	void same(MNode const& a, MNode const& b, std::string const& path) {
		CHECK("reader-type", a.dir == b.dir && a.name == b.name, path << ": " << a.name << " vs " << b.name);
		CHECK("reader-content", a.data == b.data, path << ": content differs");
		CHECK("reader-listing", a.kids.size() == b.kids.size(), path << ": " << b.kids.size() << " entries in the archive, expected " << a.kids.size());
		for (auto& [k, v] : a.kids) {
			auto it = b.kids.find(k);
			CHECK("reader-listing", it != b.kids.end(), path << "/" << v.name << " is not in the archive");
			same(v, it->second, path + "/" + v.name);
		}
	}
	void prune_empty(MNode& n) {
		for (auto it = n.kids.begin(); it != n.kids.end();) {
			prune_empty(it->second);
			if (it->second.dir && it->second.kids.empty()) it = n.kids.erase(it);
			else ++it;
		}
	}
	void restamp(MNode& n, int64_t t) {
		n.time = t;
		for (auto& [k, v] : n.kids) restamp(v, t);
	}
	bool has_empty(MNode const& n) {
		for (auto& [k, v] : n.kids)
			if (v.dir && (v.kids.empty() || has_empty(v))) return true;
		return false;
	}
	void roundtrip_tree(pbt::Case& c, MNode m, int64_t t) {
		auto& s = c.src;
		Vfs v;
		for (auto& [k, x] : m.kids) v.mount(m_to_vfs(x), "/");
		auto ver = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		size_t sink = s.below(3);
		Bytes out;
		auto path = pbt::scratch_dir() + "/out.vdf";
		if (sink == 0) {
			auto w = Write::to(&out);
			v.save(w.get(), ver, t);
		} else if (sink == 1) {
			{ auto w = Write::to(std::filesystem::path(path)); v.save(w.get(), ver, t); }
			out = read_file(path);
		} else {
			FILE* f = fopen(path.c_str(), "wb");
			{ auto w = Write::to(f); v.save(w.get(), ver, t); }
			fclose(f);
			out = read_file(path);
		}
		m_dump(c.log, m);
		c.log << " t" << t << " sink " << sink;
		CHECK("size", out.size() >= 296, "archive of " << out.size() << " bytes");
		CHECK("signature", memcmp(out.data() + 256, ver == GameVersion::GOTHIC_1 ? SIG1 : SIG2, 16) == 0, "wrong signature");
		uint32_t h[6];
		memcpy(h, out.data() + 272, 24);
		size_t files = 0, depth = 0, count = m_count(m, &files, &depth);
		CHECK("entries", h[0] == count, "header says " << h[0] << " entries, expected " << count);
		CHECK("files", h[1] == files, "header says " << h[1] << " files, expected " << files);
		CHECK("size-field", h[3] == out.size(), "header says " << h[3] << " bytes, the archive has " << out.size());
		CHECK("version", h[5] == 0x50, "header version " << h[5]);
		size_t e = 0, f = 0;
		auto dec = decode(out, t & ~int64_t {1}, e, f);
		same(m, dec, "");
		// and the library's own reader
		Vfs w;
		Exact ex(out);
		size_t how = s.below(2);
		if (how == 0) {
			auto r = ex.open();
			w.mount_disk(r.get(), static_cast<OB>(s.below(4)));
		} else {
			write_file(path, out);
			w.mount_disk(std::filesystem::path(path));
		}
		restamp(m, t & ~int64_t {1});
		m.time = -1;
		m_compare(w.root(), m, "", {});
		// saving what was mounted gives the same archive again
		Bytes again;
		{ auto wr = Write::to(&again); w.save(wr.get(), ver, t); }
		CHECK("resave", again == out, "saving the mounted archive again gives other bytes");
		c.nontrivial(count >= 2);
		if (has_empty(m)) c.tag("empty directory");
		if (depth >= 3) c.tag("depth>=3");
	}
	void roundtrip(pbt::Case& c) {
		auto t = gen_time(c.src) + static_cast<int64_t>(c.src.below(2));
		roundtrip_tree(c, gen_root(c.src, 3), t);
	}
	void wide(pbt::Case& c) {
		auto& s = c.src;
		MNode m;
		m.name = "/";
		size_t n = 1 + s.below(200);
		for (size_t i = 0; i < n; ++i) {
			auto x = gen_tree(s, gen_name(s, false), s.chance(1, 4) ? 2 : 0);
			m.kids.emplace(lower(x.name), std::move(x));
		}
		roundtrip_tree(c, m, gen_time(s));
	}
	void deep(pbt::Case& c) {
		auto& s = c.src;
		MNode m = gen_tree(s, "leaf", 0);
		size_t n = 1 + s.below(40);
		for (size_t i = 0; i < n; ++i) {
			MNode d;
			d.name = gen_name(s);
			d.time = 1000000000;
			d.kids.emplace(lower(m.name), m);
			if (s.flip()) { auto x = gen_tree(s, gen_name(s), s.flip() ? 1 : 0); d.kids.emplace(lower(x.name), x); }
			m = d;
		}
		MNode r;
		r.name = "/";
		r.kids.emplace(lower(m.name), m);
		roundtrip_tree(c, r, gen_time(s));
	}
	// The stored time stamp is the requested one (2 s resolution) in any time zone.
	void stamp(pbt::Case& c) {
		auto& s = c.src;
		static char const* const zones[] = {"UTC0", "XXX-5:30", "YYY8", "CET-1CEST,M3.5.0,M10.5.0/3", "ZZZ-13"};
		setenv("TZ", s.pick(zones), 1);
		tzset();
		// 1980-01-03 .. 2107; the hour repeated in autumn has no unique local time
		int64_t t = 315705600 + static_cast<int64_t>(s.below(3976300800ull));
		time_t tt = t;
		tm l {};
		localtime_r(&tt, &l);
		bool repeated = l.tm_mon == 9 && l.tm_mday >= 25 && l.tm_hour >= 1 && l.tm_hour <= 3;
		if (repeated) t += 12 * 3600;
		Vfs v, w;
		MNode f = gen_tree(s, "F", 0);
		v.mount(m_to_vfs(f), "");
		Bytes out;
		{ auto wr = Write::to(&out); v.save(wr.get(), GameVersion::GOTHIC_2, t); }
		auto r = Read::from(&out);
		w.mount_disk(r.get());
		auto got = w.resolve("F")->time();
		auto zone = std::string(getenv("TZ"));
		setenv("TZ", "UTC", 1);
		tzset();
		c.log << "t" << t << " in " << zone;
		CHECK("stamp", got == (t & ~int64_t {1}), "saved with time " << t << ", mounted with " << got << " in zone " << zone);
		c.nontrivial();
	}
	void now_stamp(pbt::Case& c) {
		Vfs v, w;
		MNode f = gen_tree(c.src, "F", 0);
		v.mount(m_to_vfs(f), "");
		Bytes out;
		auto a = time(nullptr);
		{ auto wr = Write::to(&out); v.save(wr.get(), GameVersion::GOTHIC_1); }
		auto b = time(nullptr);
		auto r = Read::from(&out);
		w.mount_disk(r.get());
		auto got = w.resolve("F")->time();
		CHECK("stamp-now", got >= a - 2 && got <= b + 2, "saved between " << a << " and " << b << ", mounted with " << got);
		c.log << "default time stamp";
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C05",
	    "Random trees (empty directories and files, 64-character names, up to 200 entries wide and 40 levels deep, both signatures, three sinks) are saved, decoded by an independent catalog reader, mounted by the library and saved again; time stamps are checked in five time zones. Non-trivial: at least two nodes.",
	    {"Names are at most 64 characters without trailing blanks; an empty directory's child index may be anything outside the catalog.", "Compressed archives need miniz, which is not available here."},
	    {{"roundtrip", 60000, 20, roundtrip}, {"wide", 1500, 20, wide}, {"deep", 3000, 20, deep}, {"stamp", 60000, 10, stamp}, {"now", 16, 4, now_stamp}}};
	return pbt::main(argc, argv, cfg);
}
