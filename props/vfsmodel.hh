// Reference model of a case-insensitive tree, and comparison with a Vfs.
#pragma once
#include "common.hh"
#include <zenkit/Vfs.hh>
#include <algorithm>
#include <map>
#include <memory>

struct MNode {
	std::string name;
	bool dir {true};
	int64_t time {-1};
	bool any_time {false}; // the library picks the time
	Bytes data;
	std::map<std::string, MNode> kids; // keyed by lower-cased name
};
inline std::string lower(std::string_view s) {
	std::string r(s);
	for (auto& c : r)
		if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
	return r;
}
inline std::string rtrim(std::string_view s) {
	while (!s.empty() && (s.back() == ' ' || (s.back() >= '\t' && s.back() <= '\r'))) s.remove_suffix(1);
	return std::string(s);
}
inline std::vector<std::string> split_path(std::string_view p) {
	std::vector<std::string> v;
	std::string cur;
	for (char c : p) {
		if (c == '/') {
			if (!cur.empty()) v.push_back(cur);
			cur.clear();
		} else
			cur += c;
	}
	if (!cur.empty()) v.push_back(cur);
	return v;
}
inline MNode* m_child(MNode& n, std::string_view name) {
	if (!n.dir) return nullptr;
	auto it = n.kids.find(lower(rtrim(name)));
	return it == n.kids.end() ? nullptr : &it->second;
}
inline MNode* m_resolve(MNode& root, std::string_view path) {
	MNode* n = &root;
	for (auto& part : split_path(path)) {
		n = m_child(*n, part);
		if (!n) return nullptr;
	}
	return n;
}
using OB = zenkit::VfsOverwriteBehavior;
// Whether the policy lets an incoming node replace the existing one: ALL always, NONE never,
// NEWER replaces existing nodes that are newer than the incoming one, OLDER those that are older.
inline bool m_replaces(OB p, int64_t existing, int64_t incoming) {
	switch (p) {
	case OB::NONE: return false;
	case OB::ALL: return true;
	case OB::NEWER: return existing > incoming;
	case OB::OLDER: return existing < incoming;
	}
	return false;
}
inline void m_mount(MNode& parent, MNode const& src, OB policy) {
	auto key = lower(src.name);
	auto it = parent.kids.find(key);
	if (it == parent.kids.end()) {
		parent.kids[key] = src;
		return;
	}
	if (it->second.dir && src.dir) {
		for (auto& [k, v] : src.kids) m_mount(it->second, v, policy);
		return;
	}
	if (m_replaces(policy, it->second.time, src.time)) it->second = src;
}
// The policy of an archive, whose entries all carry the archive's time stamp; a directory replacing a file starts empty.
inline void m_mount_disk(MNode& root, MNode const& archive_root, OB policy) {
	for (auto& [k, v] : archive_root.kids) m_mount(root, v, policy);
}
inline size_t m_count(MNode const& n, size_t* files = nullptr, size_t* depth = nullptr, size_t d = 0) {
	size_t c = 0;
	if (depth) *depth = std::max(*depth, d);
	for (auto& [k, v] : n.kids) {
		c += 1;
		if (!v.dir && files) ++*files;
		c += m_count(v, files, depth, d + 1);
	}
	return c;
}
inline void m_dump(std::ostream& o, MNode const& n, int max = 40) {
	o << n.name;
	if (!n.dir) {
		o << "(" << n.data.size() << "b,t" << n.time << ")";
		return;
	}
	o << "{";
	int i = 0;
	for (auto& [k, v] : n.kids) {
		if (i++ > max) break;
		if (i > 1) o << " ";
		m_dump(o, v, max);
	}
	o << "}";
}
inline zenkit::VfsNode m_to_vfs(MNode const& n) {
	if (!n.dir) {
		auto* p = new std::byte[n.data.size()];
		if (!n.data.empty()) memcpy(p, n.data.data(), n.data.size());
		zenkit::VfsFileDescriptor f {p, n.data.size(), true};
		return n.time == -1 ? zenkit::VfsNode::file(n.name, f) : zenkit::VfsNode::file(n.name, f, n.time); // -1 stands for no time
	}
	auto d = n.time == -1 ? zenkit::VfsNode::directory(n.name) : zenkit::VfsNode::directory(n.name, n.time);
	for (auto& [k, v] : n.kids) d.create(m_to_vfs(v));
	return d;
}
struct CmpOpt {
	bool names_exact {true};
	bool times {true};
	bool dir_times {true};
};
inline void m_compare(zenkit::VfsNode const& v, MNode const& m, std::string const& path, CmpOpt const& opt) {
	CHECK("type", (v.type() == zenkit::VfsNodeType::DIRECTORY) == m.dir, path << " is " << (m.dir ? "not a directory" : "not a file"));
	if (!m.dir) {
		if (opt.times) CHECK("time", v.time() == m.time, path << " has time " << v.time() << ", expected " << m.time);
		auto r = v.open_read();
		CHECK("open", r != nullptr, path << " cannot be opened");
		auto got = slurp(*r);
		CHECK("content", got == m.data, path << " holds " << got.size() << " bytes " << bhex(got, 16) << ", expected " << m.data.size() << " bytes " << bhex(m.data, 16));
		return;
	}
	size_t n = 0;
	std::string prev;
	for (auto& c : v.children()) {
		auto it = m.kids.find(lower(c.name()));
		CHECK("listing-extra", it != m.kids.end(), path << " lists " << pbt::quote(c.name()) << " which should not be there");
		if (opt.names_exact) CHECK("name", c.name() == it->second.name, path << " lists " << pbt::quote(c.name()) << ", expected " << pbt::quote(it->second.name));
		if (n) CHECK("listing-order", prev != lower(c.name()), path << " lists " << c.name() << " twice");
		prev = lower(c.name());
		++n;
		m_compare(c, it->second, path + "/" + c.name(), opt);
	}
	if (n != m.kids.size()) {
		std::string missing;
		for (auto& [k, x] : m.kids) {
			bool f = false;
			for (auto& c : v.children()) f = f || lower(c.name()) == k;
			if (!f) missing += " " + x.name;
		}
		CHECK("listing-missing", false, path << " lists " << n << " entries, expected " << m.kids.size() << "; missing:" << missing);
	}
	if (opt.times && opt.dir_times && !m.any_time) CHECK("dir-time", v.time() == m.time, path << " (directory) has time " << v.time() << ", expected " << m.time);
}
// name pools: small so that collisions (also by case) are frequent
inline std::string gen_name(pbt::Src& s, bool small = true) {
	static std::string const pool[] = {"A", "a", "B", "b.txt", "B.TXT", "WORK", "_work_", "Data", "DATA", "data", "x.zen", "X.ZEN", "X", "X Y", "a.b.c", "Z\xe4"};
	if (small && !s.chance(1, 8)) return s.pick(pool);
	auto n = s.text(s.chance(1, 4) ? 64 : 12, "aAbBcCxXyYzZ0189_-.[] ~\xe4\xf6");
	n = rtrim(n);
	if (n.empty() || n == "." || n == "..") n = "n";
	return n;
}
inline std::string vary(pbt::Src& s, std::string n, bool blanks) {
	switch (s.below(5)) {
	case 1:
		for (auto& c : n) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
		break;
	case 2:
		for (auto& c : n) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
		break;
	case 3: {
		size_t i = s.below(n.size() + 1);
		if (i < n.size() && ((n[i] >= 'a' && n[i] <= 'z') || (n[i] >= 'A' && n[i] <= 'Z'))) n[i] = static_cast<char>(n[i] ^ 32);
		break;
	}
	default: break;
	}
	if (blanks && s.chance(1, 6)) n += s.flip() ? " " : " \t ";
	return n;
}
inline int64_t gen_time(pbt::Src& s) {
	static int64_t const ts[] = {1000000000, 1000000002, 999999998, 1234567890, 1234567892, 1700000000, 600000000};
	return s.chance(1, 5) ? 400000000 + 2 * static_cast<int64_t>(s.below(600000000)) : s.pick(ts);
}
inline MNode gen_tree(pbt::Src& s, std::string name, int depth, int64_t fixed_time = -2) {
	MNode n;
	n.name = std::move(name);
	n.time = fixed_time != -2 ? fixed_time : gen_time(s);
	if (depth <= 0 || s.chance(2, 5)) {
		n.dir = false;
		n.data = to_bytes(s.bytes(s.chance(1, 10) ? 9000 : 40));
		return n;
	}
	size_t k = s.len(6);
	for (size_t i = 0; i < k; ++i) {
		auto c = gen_tree(s, gen_name(s), depth - 1, fixed_time);
		n.kids.emplace(lower(c.name), std::move(c));
	}
	return n;
}
inline MNode gen_root(pbt::Src& s, int depth, int64_t fixed_time = -2, size_t width = 7) {
	MNode n;
	n.name = "/";
	size_t k = s.len(width);
	for (size_t i = 0; i < k; ++i) {
		auto c = gen_tree(s, gen_name(s), depth, fixed_time);
		n.kids.emplace(lower(c.name), std::move(c));
	}
	return n;
}
// Independent writer of the disk archive format (docs/engine/formats/vdf.md); with `stored`, of compressed archives.
inline Bytes m_write_vdf(MNode const& root, std::string_view signature, uint32_t dos, uint32_t cat_off = 296, bool zero_cat = false, std::function<Bytes(MNode const&)> stored = {}) {
	struct E { MNode const* n; bool last; uint32_t child; };
	std::vector<E> es;
	std::function<void(MNode const&)> add = [&](MNode const& d) {
		size_t first = es.size(), i = 0;
		for (auto& [k, v] : d.kids) es.push_back({&v, ++i == d.kids.size(), 0});
		for (size_t q = first; q < first + d.kids.size(); ++q)
			if (es[q].n->dir) {
				es[q].child = static_cast<uint32_t>(es.size());
				add(*es[q].n);
			}
	};
	add(root);
	Out head, cat, data;
	size_t base = cat_off + es.size() * 80, files = 0;
	for (auto& e : es) {
		std::string nm = e.n->name;
		nm.resize(64, ' ');
		cat.str(nm);
		if (e.n->dir) cat.u32(e.child).u32(0).u32(0x80000000u | (e.last ? 0x40000000u : 0));
		else {
			cat.u32(base + data.size()).u32(e.n->data.size()).u32(e.last ? 0x40000000u : 0);
			auto b = stored ? stored(*e.n) : e.n->data;
			data.raw(b.data(), b.size());
			++files;
		}
		cat.u32(0x20);
	}
	std::string comment = "made by the model";
	comment.resize(256, '\x1A');
	head.str(comment).str(signature).u32(es.size()).u32(files).u32(dos).u32(base + data.size()).u32(zero_cat ? 0 : cat_off).u32(stored ? 0xA0 : 0x50);
	head.b.resize(cat_off, 0);
	head.cat(cat).cat(data);
	return head.bytes();
}
// DOS time (2 s resolution) of a Unix time, for UTC.
inline uint32_t m_dos(int64_t t) {
	time_t x = t;
	tm u {};
	gmtime_r(&x, &u);
	return static_cast<uint32_t>(u.tm_year - 80) << 25 | static_cast<uint32_t>(u.tm_mon + 1) << 21 | static_cast<uint32_t>(u.tm_mday) << 16 |
	    static_cast<uint32_t>(u.tm_hour) << 11 | static_cast<uint32_t>(u.tm_min) << 5 | static_cast<uint32_t>(u.tm_sec / 2);
}
inline char const* const SIG1 = "PSVDSC_V2.00\r\n\r\n";
inline char const* const SIG2 = "PSVDSC_V2.00\n\r\n\r";
inline char const* const SIGT = "PSVDSC_V2.00\x1A\x1A\x1A\x1A";
