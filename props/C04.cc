#include "vfsmodel.hh"
using namespace zenkit;

namespace {
	// Several overlapping sources mounted one after another with arbitrary policies.
	void mounts(pbt::Case& c) {
		auto& s = c.src;
		Vfs v;
		MNode m;
		m.name = "/";
		size_t n = 2 + s.len(5), conflicts = 0;
		for (size_t i = 0; i < n; ++i) {
			auto pol = static_cast<OB>(s.below(4));
			c.tag("policy:" + std::to_string(int(pol)));
			auto before = m;
			if (s.flip()) {
				auto t = gen_time(s);
				auto root = gen_root(s, 3, t, 9);
				std::function<void(MNode&)> fill = [&](MNode& d) {
					if (d.kids.empty()) { MNode f; f.name = "fill"; f.dir = false; f.time = t; d.kids["fill"] = f; }
					for (auto& [k, x] : d.kids) if (x.dir) fill(x);
				};
				fill(root);
				static char const* const sigs[] = {SIG1, SIG2, SIGT};
				auto b = m_write_vdf(root, std::string_view(s.pick(sigs), 16), m_dos(t), 296, s.chance(1, 5));
				c.log << " disk[t" << t << " policy " << int(pol) << "] ";
				m_dump(c.log, root);
				if (s.flip()) {
					auto r = Read::from(&b);
					v.mount_disk(r.get(), pol);
				} else {
					auto path = pbt::scratch_dir() + "/d" + std::to_string(i) + ".vdf";
					write_file(path, b);
					v.mount_disk(std::filesystem::path(path), pol);
				}
				for (auto& [k, x] : root.kids) conflicts += before.kids.count(k);
				m_mount_disk(m, root, pol);
			} else {
				auto node = gen_tree(s, gen_name(s), 3);
				c.log << " node[policy " << int(pol) << "] ";
				m_dump(c.log, node);
				conflicts += before.kids.count(lower(node.name));
				v.mount(m_to_vfs(node), s.flip() ? "" : "/", pol);
				m_mount(m, node, pol);
			}
			m_compare(v.root(), m, "", {});
		}
		c.nontrivial(conflicts > 0);
	}
	// Exactly one conflict at a chosen depth: all time relations x policies x node kinds.
	void conflict(pbt::Case& c) {
		auto& s = c.src;
		auto pol = static_cast<OB>(s.below(4));
		int64_t t0 = 1000000000 + 2 * static_cast<int64_t>(s.below(1000)), t1 = t0 + 2 * (static_cast<int64_t>(s.below(5)) - 2);
		size_t depth = s.below(4);
		auto wrap = [&](MNode leaf, int64_t t) {
			for (size_t i = 0; i < depth; ++i) {
				MNode d;
				d.name = "D" + std::to_string(i);
				d.time = t;
				d.kids[lower(leaf.name)] = leaf;
				if (s.flip()) { MNode o; o.name = "other" + std::to_string(t == t0); o.dir = false; o.time = t; o.data = to_bytes("o"); d.kids[lower(o.name)] = o; }
				leaf = d;
			}
			return leaf;
		};
		MNode a = gen_tree(s, "Name.x", 1, t0), b = gen_tree(s, vary(s, "Name.x", false), 1, t1);
		bool disk = s.flip();
		if (disk && b.dir && b.kids.empty()) { MNode f; f.name = "f"; f.dir = false; f.time = t1; b.kids["f"] = f; }
		a = wrap(a, t0);
		b = wrap(b, t1);
		MNode m;
		m.name = "/";
		Vfs v;
		v.mount(m_to_vfs(a), "/");
		m_mount(m, a, OB::ALL);
		if (disk) {
			std::function<void(MNode&)> stamp = [&](MNode& d) { d.time = t1; for (auto& [k, x] : d.kids) stamp(x); if (d.dir && d.kids.empty()) { MNode f; f.name = "f"; f.dir = false; f.time = t1; d.kids["f"] = f; } };
			stamp(b);
			MNode r;
			r.kids[lower(b.name)] = b;
			auto bytes = m_write_vdf(r, SIG2, m_dos(t1));
			auto rd = Read::from(&bytes);
			v.mount_disk(rd.get(), pol);
		} else
			v.mount(m_to_vfs(b), "", pol);
		m_mount(m, b, pol);
		c.log << "existing ";
		m_dump(c.log, a);
		c.log << (disk ? " archive " : " node ");
		m_dump(c.log, b);
		c.log << " policy " << int(pol);
		m_compare(v.root(), m, "", {});
		c.nontrivial();
		c.tag(t0 < t1 ? "incoming newer" : t0 == t1 ? "same time" : "incoming older");
	}
	// The default policies: nodes replace, archives replace what is older.
	void defaults(pbt::Case& c) {
		auto& s = c.src;
		auto t = gen_time(s);
		MNode m, a, root;
		m.name = root.name = "/";
		a = gen_tree(s, "F", 0);
		MNode b = gen_tree(s, "f", 0), d = gen_tree(s, "F", 0, t);
		root.kids["f"] = d;
		Vfs v;
		v.mount(m_to_vfs(a), "/");
		v.mount(m_to_vfs(b), "/");
		m_mount(m, a, OB::ALL);
		m_mount(m, b, OB::ALL);
		m_compare(v.root(), m, "", {});
		auto bytes = m_write_vdf(root, SIG1, m_dos(t));
		auto r = Read::from(&bytes);
		v.mount_disk(r.get());
		m_mount_disk(m, root, OB::OLDER);
		m_compare(v.root(), m, "", {});
		c.log << "file t" << b.time << " archive t" << t;
		c.nontrivial();
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C04",
	    "Sequences of 2-7 overlapping mounts (nodes and independently encoded archives) with random policies and close time stamps; the merged tree is compared with a reference merge after every mount, plus single-conflict cases over every time relation, depth and node kind. Non-trivial: a name collision occurred.",
	    {"Archives use the model's own encoder (docs/engine/formats/vdf.md) without empty directories; TZ is UTC."},
	    {{"mounts", 60000, 20, mounts}, {"conflict", 200000, 10, conflict}, {"defaults", 20000, 10, defaults}}};
	return pbt::main(argc, argv, cfg);
}
