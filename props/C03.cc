#include "vfsmodel.hh"
using namespace zenkit;

namespace {
	std::string gen_path(pbt::Src& s, MNode& root, bool existing_bias, bool blanks) {
		// walk down the model, sometimes leaving it
		std::string p = s.chance(1, 3) ? "/" : "";
		MNode* n = &root;
		size_t k = s.len(4) + (s.chance(1, 20) ? 0 : 1);
		for (size_t i = 0; i < k; ++i) {
			std::string part;
			if (n && n->dir && !n->kids.empty() && existing_bias && !s.chance(1, 6)) {
				size_t q = s.below(n->kids.size());
				auto it = n->kids.begin();
				std::advance(it, static_cast<long>(q));
				part = it->second.name;
			} else
				part = gen_name(s);
			n = n ? m_child(*n, part) : nullptr;
			p += vary(s, part, blanks);
			if (i + 1 < k) p += s.chance(1, 8) ? "//" : "/";
		}
		return p;
	}
	void all_names(MNode const& n, std::map<std::string, std::vector<MNode const*>>& out) {
		for (auto& [k, v] : n.kids) {
			out[k].push_back(&v);
			all_names(v, out);
		}
	}
	void check_lookup(Vfs& v, MNode& m, std::string const& path) {
		MNode* want = m_resolve(m, path);
		VfsNode const* got = const_cast<Vfs const&>(v).resolve(path);
		CHECK("resolve", (got != nullptr) == (want != nullptr), "resolve(" << pbt::quote(path) << ") " << (got ? "found a node" : "found nothing") << " against the model");
		CHECK("resolve", v.resolve(path) == got, "the two resolve overloads disagree");
		if (!got) return;
		m_compare(*got, *want, path, {true, true, true});
		if (want != &m) CHECK("resolve-name", got->name() == want->name, "resolve(" << path << ") returned " << got->name());
	}
	void history(pbt::Case& c) {
		auto& s = c.src;
		Vfs v;
		MNode m;
		m.name = "/";
		m.time = -1;
		size_t n = 1 + s.len(24), eff = 0;
		for (size_t i = 0; i < n; ++i) {
			switch (s.below(9)) {
			case 0: { // mkdir
				auto p = gen_path(s, m, s.flip(), false);
				c.log << " mkdir(" << pbt::quote(p) << ")";
				// model
				MNode* cur = &m;
				bool blocked = false;
				std::vector<std::string> parts = split_path(p);
				MNode trial = m;
				cur = &trial;
				for (auto& part : parts) {
					auto* ch = m_child(*cur, part);
					if (!ch) {
						MNode d;
						d.name = part;
						d.any_time = true;
						d.time = 4000000000;
						ch = &(cur->kids[lower(part)] = d);
					} else if (!ch->dir) { blocked = true; break; }
					cur = ch;
				}
				m = trial; // directories in front of the obstacle may have been created
				bool threw = false;
				try {
					VfsNode& d = v.mkdir(p);
					CHECK("mkdir", d.type() == VfsNodeType::DIRECTORY, "mkdir returned a file");
					CHECK("mkdir", &d == v.resolve(p), "mkdir(" << p << ") returned another node than resolve");
				} catch (VfsFileExistsError const&) { threw = true; }
				CHECK("mkdir-error", threw == blocked, "mkdir(" << pbt::quote(p) << ") " << (threw ? "failed" : "succeeded") << " against the model");
				++eff;
				break;
			}
			case 1:
			case 2: { // mount a node
				auto p = gen_path(s, m, true, true);
				if (s.chance(1, 3)) p = s.flip() ? "" : "/";
				auto node = s.chance(1, 5) ? gen_tree(s, gen_name(s), s.flip() ? 0 : 2, -1) : gen_tree(s, gen_name(s), s.flip() ? 0 : 2);
				auto pol = static_cast<OB>(s.below(4));
				c.log << " mount(";
				m_dump(c.log, node);
				c.log << " at " << pbt::quote(p) << " policy " << int(pol) << ")";
				auto* parent = m_resolve(m, p);
				int want = !parent ? 1 : !parent->dir ? 2 : 0, got = 0;
				try { v.mount(m_to_vfs(node), p, pol); } catch (VfsNotFoundError const&) { got = 1; } catch (VfsFileExistsError const&) { got = 2; }
				CHECK("mount-error", got == want, "mount at " << pbt::quote(p) << " outcome " << got << ", expected " << want << " (0 ok, 1 not found, 2 not a directory)");
				if (!want) m_mount(*parent, node, pol), ++eff;
				break;
			}
			case 3: { // mount an archive
				auto t = gen_time(s);
				auto root = gen_root(s, 2, t);
				// the format cannot express empty directories portably, nor names longer than 64
				std::function<void(MNode&)> fill = [&](MNode& d) {
					if (d.kids.empty()) { MNode f; f.name = "fill"; f.dir = false; f.time = t; d.kids["fill"] = f; }
					for (auto& [k, x] : d.kids) if (x.dir) fill(x);
				};
				fill(root);
				auto pol = static_cast<OB>(s.below(4));
				c.log << " disk(";
				m_dump(c.log, root);
				c.log << " policy " << int(pol) << ")";
				auto b = m_write_vdf(root, s.flip() ? SIG1 : SIG2, m_dos(t));
				auto r = Read::from(&b);
				v.mount_disk(r.get(), pol);
				std::fill(b.begin(), b.end(), std::byte {0xEE}); // the Vfs keeps its own copy
				m_mount_disk(m, root, pol);
				++eff;
				break;
			}
			case 4: { // remove
				auto p = gen_path(s, m, true, true);
				if (split_path(p).empty()) break;
				c.log << " remove(" << pbt::quote(p) << ")";
				auto slash = p.rfind('/');
				auto* parent = slash == std::string::npos ? &m : m_resolve(m, p.substr(0, slash));
				auto* node = parent ? m_child(*parent, p.substr(slash + 1)) : nullptr;
				bool want = node != nullptr;
				if (node) parent->kids.erase(lower(node->name));
				bool got = v.remove(p);
				CHECK("remove", got == want, "remove(" << pbt::quote(p) << ") returned " << got);
				++eff;
				break;
			}
			case 5: { // node level interface
				auto p = gen_path(s, m, true, false);
				auto* d = m_resolve(m, p);
				auto* vd = v.resolve(p);
				CHECK("resolve", (d != nullptr) == (vd != nullptr), "resolve(" << pbt::quote(p) << ") disagrees with the model");
				if (!d || !d->dir) break;
				if (s.chance(1, 3)) {
					auto nm = vary(s, gen_name(s), true);
					auto* k = m_child(*d, nm);
					auto* a = vd->child(nm);
					auto const* b = static_cast<zenkit::VfsNode const*>(vd)->child(nm);
					c.log << " child(" << pbt::quote(nm) << " in " << pbt::quote(p) << ")";
					CHECK("child", a == b && (a != nullptr) == (k != nullptr) && (!a || a->name() == k->name), "VfsNode::child(" << pbt::quote(nm) << ") disagrees with the model");
				} else if (s.flip()) {
					auto node = gen_tree(s, gen_name(s), 1);
					c.log << " create(";
					m_dump(c.log, node);
					c.log << " in " << pbt::quote(p) << ")";
					auto* made = vd->create(m_to_vfs(node));
					d->kids[lower(node.name)] = node;
					CHECK("create", made != nullptr && made->name() == node.name && made == vd->child(node.name), "create returned another node");
				} else {
					auto nm = vary(s, gen_name(s), true);
					auto* k = m_child(*d, nm);
					c.log << " node-remove(" << pbt::quote(nm) << " in " << pbt::quote(p) << ")";
					bool want = k != nullptr;
					if (k) d->kids.erase(lower(k->name));
					CHECK("remove", vd->remove(nm) == want, "VfsNode::remove(" << pbt::quote(nm) << ") disagrees");
				}
				++eff;
				break;
			}
			case 6: check_lookup(v, m, gen_path(s, m, true, true)); break;
			case 7: check_lookup(v, m, gen_path(s, m, false, true)); break;
			default: { // find
				std::map<std::string, std::vector<MNode const*>> names;
				all_names(m, names);
				auto q = gen_name(s);
				if (!names.empty() && s.flip()) {
					auto it = names.begin();
					std::advance(it, static_cast<long>(s.below(names.size())));
					q = it->second[0]->name;
				}
				q = vary(s, q, true);
				auto key = lower(rtrim(q));
				auto it = names.find(key);
				auto* got = const_cast<Vfs const&>(v).find(q);
				CHECK("find", (got != nullptr) == (it != names.end()), "find(" << pbt::quote(q) << ") " << (got ? "found something" : "found nothing") << " against the model");
				if (got) {
					CHECK("find", lower(got->name()) == key, "find(" << q << ") returned " << got->name());
					bool same = false;
					for (auto* cand : it->second) {
						try { m_compare(*got, *cand, q, {}); same = true; } catch (pbt::Failure const&) {}
					}
					CHECK("find", same, "find(" << q << ") returned a node unlike any of that name");
				}
				CHECK("find", v.find(q) == got, "the two find overloads disagree");
				break;
			}
			}
			if (s.chance(1, 4)) m_compare(v.root(), m, "", {});
		}
		m_compare(v.root(), m, "", {});
		size_t files = 0, depth = 0;
		m_count(m, &files, &depth);
		c.nontrivial(eff >= 2 && (files > 0 || depth > 0));
		if (depth >= 3) c.tag("depth>=3");
	}
	void order(pbt::Case& c) {
		// name comparison is a strict weak order consistent with equality
		auto& s = c.src;
		auto alpha = "aAbBzZ@[`{_09 \xe4\xc4\xff.";
		auto a = s.text(6, alpha), b = s.flip() ? vary(s, a, false) : s.text(6, alpha), d = s.text(6, alpha);
		c.log << pbt::quote(a) << " " << pbt::quote(b) << " " << pbt::quote(d);
		auto la = lower(a), lb = lower(b);
		CHECK("iequals", iequals(a, b) == (la == lb), "iequals(" << a << "," << b << ")");
		CHECK("icompare", icompare(a, b) + icompare(b, a) + iequals(a, b) == 1, "icompare is no trichotomy for " << pbt::quote(a) << " " << pbt::quote(b));
		if (icompare(a, b) && icompare(b, d)) CHECK("icompare", icompare(a, d), "icompare is not transitive");
		c.nontrivial(!a.empty() && !b.empty());
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C03",
	    "Random histories (up to 25 steps) of mkdir, mount, archive mount, remove, node creation and lookups over a small name pool (case variants, blanks, repeated separators); the whole tree and every lookup are compared with a case-insensitive reference tree. Non-trivial: two effective mutations and a non-empty tree.",
	    {"Stored names carry no trailing blanks and no '/'; lookups may."},
	    {{"history", 500000, 20, history}, {"order", 200000, 10, order}}};
	return pbt::main(argc, argv, cfg);
}
