#include "vfsmodel.hh"
#include <sys/stat.h>
#include <sys/time.h>
using namespace zenkit;
namespace fs = std::filesystem;

namespace {
	void materialize(MNode const& n, fs::path const& at) {
		if (n.dir) {
			fs::create_directory(at);
			for (auto& [k, v] : n.kids) materialize(v, at / v.name);
		} else
			write_file(at.string(), n.data);
		struct timeval tv[2] = {{n.time, 0}, {n.time, n.time % 7 == 0 ? 999999 : 0}};
		utimes(at.c_str(), tv);
	}
	void mirror(pbt::Case& c) {
		auto& s = c.src;
		Vfs v;
		MNode m;
		m.name = "/";
		auto base = fs::path(pbt::scratch_dir()) / "host";
		fs::remove_all(base);
		fs::create_directory(base);
		// something may be mounted already
		auto pre = gen_root(s, 2);
		if (s.flip()) pre.kids.clear();
		for (auto& [k, x] : pre.kids) { v.mount(m_to_vfs(x), ""); m_mount(m, x, OB::ALL); }
		size_t n = 1 + s.len(2);
		size_t files = 0;
		for (size_t i = 0; i < n; ++i) {
			auto host = gen_root(s, 3);
			host.time = gen_time(s);
			auto dir = base / ("d" + std::to_string(i));
			materialize(host, dir);
			std::string at = s.flip() ? "/" : s.flip() ? "" : "mnt/point";
			if (at == "mnt/point") {
				bool ok = true;
				try { v.mkdir(at); } catch (Error const&) { ok = false; }
				if (!ok) continue;
				for (auto const* p : {"mnt", "point"}) {
					MNode* par = std::string_view(p) == "mnt" ? &m : m_resolve(m, "mnt");
					if (!m_child(*par, p)) { MNode d; d.name = p; d.any_time = true; d.time = 4000000000; par->kids[p] = d; }
				}
			}
			auto pol = static_cast<OB>(s.below(4));
			c.log << " host ";
			m_dump(c.log, host);
			c.log << " at " << pbt::quote(at) << " policy " << int(pol);
			auto* parent = m_resolve(m, at);
			if (s.chance(1, 5) && !host.kids.empty()) {
				auto& f = host.kids.begin()->second;
				if (!f.dir) {
					c.tag("single file");
					v.mount_host(dir / f.name, at, pol);
					m_mount(*parent, f, pol);
					continue;
				}
			}
			v.mount_host(dir, at, pol);
			for (auto& [k, x] : host.kids) m_mount(*parent, x, pol);
			m_count(host, &files);
		}
		m_compare(v.root(), m, "", {});
		fs::remove_all(base);
		// the mounted contents stay readable and unchanged after the host files are gone
		m_compare(v.root(), m, "", {});
		c.nontrivial(files >= 1);
	}
	void missing(pbt::Case& c) {
		auto& s = c.src;
		Vfs v;
		auto dir = fs::path(pbt::scratch_dir()) / "m";
		fs::remove_all(dir);
		fs::create_directory(dir);
		write_file((dir / "f").string(), to_bytes("x"));
		MNode f = gen_tree(s, "file", 0);
		v.mount(m_to_vfs(f), "");
		int got = 0;
		bool through = s.flip();
		try { v.mount_host(dir, through ? "file" : "nowhere"); } catch (VfsNotFoundError const&) { got = 1; } catch (VfsFileExistsError const&) { got = 2; }
		CHECK("parent", got == (through ? 2 : 1), "mounting at a " << (through ? "file" : "missing directory") << " gave outcome " << got);
		MNode m;
		m.kids["file"] = f;
		m_compare(v.root(), m, "", {});
		c.log << (through ? "mount at a file" : "mount at a missing directory");
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C06",
	    "Random host directory trees (nested, empty files and directories, set modification times incl. fractions) are created in a scratch directory and mounted (directory or single file) at random mount points and policies over existing content; the tree, bytes and times are compared with a reference merge, also after the host files are removed. Non-trivial: at least one file mounted.",
	    {"No two names in one host directory differ only by case; only regular files and directories."},
	    {{"mirror", 24000, 10, mirror}, {"missing", 2000, 4, missing}}};
	return pbt::main(argc, argv, cfg);
}
