// C31: threads which use objects of their own do not influence each other. Built with the thread sanitizer.
#include "assetgen.hh"
#include "digest.hh"
#include "objgen.hh"
#include "savegen.hh"
#include "symgen.hh"
#include "vfsmodel.hh"
#include <atomic>
#include <filesystem>
#include <fcntl.h>
#include <set>
#include <thread>
#include <unistd.h>
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Vfs.hh>

extern "C" char const* __tsan_default_options() {
	return "halt_on_error=1:exitcode=77:report_thread_leaks=0:report_signal_unsafe=0:abort_on_error=0";
}

namespace fs = std::filesystem;
namespace {
	/// What a thread does: it leaves all results in the digest and does not use anything of other threads.
	using Job = std::function<void(Digest&)>;
	thread_local std::string messages;

	template <typename T> Job loads(Bytes const& b, bool wide) {
		return [b, wide](Digest& d) {
			T x;
			auto r = Read::from(&b);
			if constexpr (std::is_same_v<T, Mesh>) x.load(r.get(), wide);
			else x.load(r.get());
			see(d, x);
			d(r->tell());
		};
	}
	Job asset(pbt::Case& k) {
		auto& s = k.src;
		int kind = int(s.below(ag::KINDS));
		auto b = ag::make(k, kind);
		if (s.chance(1, 4)) ag::damage(k, kind, b);
		k.tag(ag::NAME[kind]);
		k.log << b.size() << " bytes as " << ag::NAME[kind];
		switch (kind) {
		case ag::TEX: return loads<Texture>(b, false);
		case ag::FNT: return loads<Font>(b, false);
		case ag::MSH: return loads<Mesh>(b, s.chance(1, 8));
		case ag::MDH: return loads<ModelHierarchy>(b, false);
		case ag::MRM: return loads<MultiResolutionMesh>(b, false);
		case ag::MDM: return loads<ModelMesh>(b, false);
		case ag::MDL: return loads<Model>(b, false);
		case ag::MAN: return loads<ModelAnimation>(b, false);
		case ag::MMB: return loads<MorphMesh>(b, false);
		default: return loads<ModelScript>(b, false);
		}
	}
	Job object(pbt::Case& k) {
		auto& s = k.src;
		Ctx c = gen_ctx(s);
		bool world = false;
		auto b = objgen::generated(k, c, world);
		auto to = s.pick({ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE});
		k.tag(world ? "world" : "object");
		return [b, g = c.g, to](Digest& d) {
			auto r = Read::from(&b);
			auto ar = ReadArchive::from(r.get());
			std::shared_ptr<Object> o;
			o = ar->read_object(g);
			d(r->tell());
			see(d, o, g);
			Bytes out;
			auto w = Write::to(&out);
			auto wa = WriteArchive::to(w.get(), to);
			wa->write_object(o, g);
			wa->write_header();
			d.bytes(out.data(), out.size());
		};
	}
	Job disk(pbt::Case& k) {
		auto& s = k.src;
		auto tree = gen_root(s, 2);
		auto time = std::max<time_t>(gen_time(s), 1000000000); // 0 stands for now
		bool g2 = s.flip();
		k.log << "disk with " << m_count(tree) << " entries at " << time;
		k.tag("disk");
		return [tree, time, g2](Digest& d) {
			Vfs v;
			for (auto& [n, c] : tree.kids) v.mount(m_to_vfs(c), "/", VfsOverwriteBehavior::ALL);
			Bytes out;
			auto w = Write::to(&out);
			v.save(w.get(), g2 ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1, time);
			d.bytes(out.data(), out.size());
			Vfs again;
			auto r = Read::from(&out);
			again.mount_disk(r.get(), VfsOverwriteBehavior::NEWER);
			std::function<void(VfsNode const&)> walk = [&](VfsNode const& n) {
				d.all(n.name(), n.time(), n.type());
				if (n.type() == VfsNodeType::DIRECTORY) for (auto& x : n.children()) walk(x);
				else { auto r = n.open_read(); auto c = slurp(*r); d.bytes(c.data(), c.size()); }
			};
			walk(again.root());
		};
	}
	/// A folder of this thread only
	struct Folder {
		fs::path dir {fs::path(pbt::scratch_dir()) / ("c31-" + std::to_string(gettid()))};
		Folder() { fs::remove_all(dir), fs::create_directories(dir); }
		~Folder() { fs::remove_all(dir); }
	};
	Job files(pbt::Case& k) {
		auto& s = k.src;
		auto tree = gen_root(s, 2);
		auto image = m_write_vdf(tree, SIG2, m_dos(1000000000));
		std::vector<std::pair<std::string, Bytes>> loose;
		for (size_t n = s.below(5); n > 0; --n) {
			Bytes b;
			for (size_t i = s.len(200); i > 0; --i) b.push_back(std::byte(s.u8()));
			loose.emplace_back("X" + std::to_string(n) + s.ident(5), b);
		}
		k.log << "mounts an image of " << image.size() << " bytes and " << loose.size() << " files";
		k.tag("files");
		return [image, loose](Digest& d) {
			Folder f;
			write_file(f.dir / "A.VDF", image);
			fs::create_directories(f.dir / "loose" / "SUB");
			for (auto& [n, b] : loose) write_file(f.dir / "loose" / (b.size() % 2 ? "SUB/" + n : n), b);
			Vfs v;
			v.mount_disk(f.dir / "A.VDF", VfsOverwriteBehavior::ALL);
			v.mount_host(f.dir / "loose", "/", VfsOverwriteBehavior::ALL);
			std::function<void(VfsNode const&)> walk = [&](VfsNode const& n) {
				d.all(n.name(), n.type());
				if (n.type() == VfsNodeType::DIRECTORY) for (auto& x : n.children()) walk(x);
				else { auto r = n.open_read(); auto c = slurp(*r); d.bytes(c.data(), c.size()); }
			};
			walk(v.root());
		};
	}
	Job game(pbt::Case& k) {
		auto& s = k.src;
		Ctx c = gen_ctx(s);
		c.g = s.flip() ? GameVersion::GOTHIC_2 : GameVersion::GOTHIC_1;
		c.packed = true;
		c.save = false;
		Bytes info, state;
		{
			Gen g {s, c};
			auto meta = std::static_pointer_cast<SaveMetadata>(g.build(T::oCSavegameInfo));
			meta->world = "WORLD";
			Dump d {c};
			d.put("%", meta.get());
			info = arch::encode(c.fmt, false, d.out, d.next, 0);
		}
		{
			c.save = true;
			Gen g {s, c};
			auto st = std::make_unique<SaveState>();
			visit_state(g, *st);
			Dump d {c};
			visit_state(d, *st);
			state = arch::encode(c.fmt, true, d.out, d.next, 0);
		}
		auto thumb = msh::tex_bytes(*msh::texture(s));
		k.log << "save game";
		k.tag("save");
		return [c, info, state, thumb](Digest& d) {
			Folder f;
			fs::create_directories(f.dir / "one");
			fs::create_directories(f.dir / "two");
			write_file(f.dir / "one" / "SAVEINFO.SAV", info);
			write_file(f.dir / "one" / "SAVEDAT.SAV", state);
			write_file(f.dir / "one" / "THUMB.SAV", thumb);
			auto look = [&](SaveGame& game) {
				see(d, std::shared_ptr<Object> {&game.metadata, [](Object*) {}}, c.g);
				Dump sd {c};
				visit_state(sd, game.state);
				auto b = arch::encode(ArchiveFormat::BINARY, true, sd.out, sd.next, 0);
				d.bytes(b.data(), b.size());
				if (game.thumbnail) see(d, *game.thumbnail);
			};
			auto one = std::make_unique<SaveGame>(c.g);
			one->load(f.dir / "one");
			look(*one);
			World w {};
			one->save(f.dir / "two", w, "WORLD.ZEN");
			auto two = std::make_unique<SaveGame>(c.g);
			two->load(f.dir / "two");
			look(*two);
			d(two->load_world() != nullptr);
		};
	}
	Job builds(pbt::Case& k) {
		auto& s = k.src;
		uint32_t w = 1u << s.below(6), h = 1u << s.below(6), seed = s.u32() | 1;
		auto to = s.pick({TextureFormat::R8G8B8A8, TextureFormat::B8G8R8A8, TextureFormat::R8G8B8, TextureFormat::R5G6B5, TextureFormat::DXT1, TextureFormat::DXT3, TextureFormat::DXT5});
		k.log << "builds " << w << "x" << h << " in format " << int(to);
		k.tag("build");
		return [w, h, seed, to](Digest& d) {
			std::vector<uint8_t> px(w * h * 4);
			uint32_t x = seed;
			for (auto& p : px) x = x * 1664525u + 1013904223u, p = uint8_t(x >> 24);
			TextureBuilder b(w, h);
			b.add_mipmap(px, TextureFormat::R8G8B8A8);
			auto t = b.build(to);
			see(d, t);
		};
	}
	Job script(pbt::Case& k) {
		auto& s = k.src;
		dat::Gen g {s, {}, {}, {}, {}, {}, {}, {}, 0};
		dat::table(s, g, 10);
		dat::Code c;
		for (size_t n = s.len(30); n > 0; --n) c.u8(s.u8());
		g.im.code = c.b;
		g.im.make_sort();
		auto b = to_bytes(g.im.encode());
		k.log << g.im.syms.size() << " symbols";
		k.tag("script");
		return loads<DaedalusScript>(b, false);
	}
	/// A script of its own with assignments, calls and strings
	Job machine(pbt::Case& k) {
		auto& s = k.src;
		using namespace dat;
		Image im;
		auto add = [&](char const* n, Type t, uint32_t flags, uint32_t count) -> Sym& {
			Sym y;
			y.name = n, y.type = t, y.flags = flags, y.count = count;
			im.syms.push_back(y);
			return im.syms.back();
		};
		add("F", FUNCTION, CONST | RETURN, 0).vary = INT;
		add("G", FUNCTION, CONST, 0);
		add("X", INT, 0, 3).ints = {s.i32(), s.i32(), s.i32()};
		add("S", STRING, 0, 2).strings = {s.ident(8), s.ident(8)};
		add("K", STRING, CONST, 1).strings = {s.ident(20)};
		add("E", FUNCTION, CONST | RETURN | EXTERNAL, 1).vary = STRING;
		add("E.P", STRING, 0, 1);
		Code c;
		auto body = [&](bool call) {
			for (size_t n = 1 + s.below(12); n > 0; --n) {
				switch (s.below(call ? 5 : 4)) {
				case 0: {
					c.op(Op::PUSHI, s.u32());
					c.pushvv(2, uint32_t(s.below(3)));
					static Op const ops[] {Op::ADD, Op::SUB, Op::MUL, Op::OR, Op::ANDB, Op::LT, Op::EQ};
					c.op(s.pick(ops));
					c.pushvv(2, uint32_t(s.below(3)));
					c.op(Op::MOVI);
					break;
				}
				case 1: c.op(Op::PUSHV, 4), c.pushvv(3, uint32_t(s.below(2))), c.op(Op::MOVS); break;
				case 2: c.pushvv(3, uint32_t(s.below(2))), c.op(Op::BE, 5), c.pushvv(3, uint32_t(s.below(2))), c.op(Op::MOVS); break;
				case 3: c.op(Op::PUSHI, s.u32()), c.pushvv(2, uint32_t(s.below(4))), c.op(Op::MOVI); break; // may lie outside
				default: c.op(Op::BL, 0); c.fill(c.here() - 4, 0xFFFF);
				}
			}
		};
		body(false);
		c.op(Op::RSR);
		im.syms[0].address = int32_t(c.here());
		auto from = c.here();
		body(true);
		c.pushvv(2, 0);
		c.op(Op::RSR);
		for (auto i = from; i + 4 < c.here(); ++i) if (c.b[i] == uint8_t(Op::BL) && c.b[i + 1] == 0xFF && c.b[i + 2] == 0xFF && !c.b[i + 3] && !c.b[i + 4]) c.fill(i + 1, 0);
		im.syms[1].address = 0;
		im.code = c.b;
		im.make_sort();
		auto bytes = im.encode();
		k.log << "script of " << c.here() << " bytes";
		k.tag("vm");
		return [bytes](Digest& d) {
			DaedalusScript sc;
			dat::load(sc, bytes);
			DaedalusVm vm {std::move(sc)};
			vm.register_external("E", [](std::string_view p) { return p.size() > 200 ? std::string {p.substr(100)} : std::string {p} + "+" + std::string {p}; });
			int n = 0;
			for (int i = 0; i < 3; ++i)
				try { d(vm.call_function<int>("F")); } catch (DaedalusScriptError const& e) { d(std::string(e.what())), ++n; }
			for (uint16_t i = 0; i < 3; ++i) d(vm.find_symbol_by_name("X")->get_int(i));
			for (uint16_t i = 0; i < 2; ++i) d(vm.find_symbol_by_name("S")->get_string(i));
		};
	}
	/// What is logged belongs to what a thread sees.
	void listen() {
		Logger::set(LogLevel::TRACE, [](LogLevel l, char const* name, char const* text) {
			if (messages.size() < 20000) messages += std::to_string(int(l)) + name + ":" + text + "\n";
		});
	}
	std::string run(Job const& j) {
		Digest d;
		messages.clear();
		try { j(d); } catch (Error const& e) { d.b += std::string("rejected: ") + e.what(); } catch (std::exception const& e) { d.b += std::string("failed: ") + e.what(); }
		undate(d.b);
		auto mine = "c31-" + std::to_string(gettid()); // part of the paths in messages
		for (size_t at = 0; (at = d.b.find(mine, at)) != std::string::npos;) d.b.replace(at, mine.size(), "c31");
		return d.b + "\nlog:" + messages;
	}
	void together(std::vector<Job> const& jobs, pbt::Case& k, int times) {
		std::vector<std::string> alone;
		for (auto& j : jobs) alone.push_back(run(j));
		std::vector<std::string> wrong(jobs.size());
		std::atomic<size_t> ready {0};
		std::vector<std::thread> threads;
		for (size_t i = 0; i < jobs.size(); ++i)
			threads.emplace_back([&, i] {
				++ready;
				while (ready < jobs.size()) std::this_thread::yield();
				for (int t = 0; t < times && wrong[i].empty(); ++t)
					if (auto got = run(jobs[i]); got != alone[i]) wrong[i] = got;
			});
		for (auto& t : threads) t.join();
		for (size_t i = 0; i < jobs.size(); ++i) {
			if (wrong[i].empty()) continue;
			size_t at = 0;
			auto& a = alone[i];
			auto& b = wrong[i];
			while (at < a.size() && at < b.size() && a[at] == b[at]) ++at;
			auto near = [&](std::string const& x) { return pbt::quote(x.substr(at < 16 ? 0 : at - 16, 60)); };
			pbt::fail("same", "thread " + std::to_string(i) + " gets something else than alone, from byte " + std::to_string(at) + ": " + near(a) + " became " + near(b));
		}
		size_t good = 0;
		for (auto& a : alone) good += a.size() > 40 && a.find("rejected: ") == std::string::npos;
		k.nontrivial(good > 1);
	}
	void own(pbt::Case& k) {
		auto& s = k.src;
		std::vector<Job> jobs;
		for (size_t n = 2 + s.below(3); n > 0; --n) {
			k.log << "\nthread: ";
			switch (s.weighted({4, 5, 2, 1, 2, 1, 1, 1})) {
			case 0: jobs.push_back(asset(k)); break;
			case 1: jobs.push_back(object(k)); break;
			case 2: jobs.push_back(disk(k)); break;
			case 3: jobs.push_back(script(k)); break;
			case 4: jobs.push_back(machine(k)); break;
			case 5: jobs.push_back(files(k)); break;
			case 6: jobs.push_back(game(k)); break;
			default: jobs.push_back(builds(k));
			}
			if (s.chance(1, 6)) jobs.push_back(jobs.back());
		}
		together(jobs, k, 1 + int(s.below(4)));
	}
	/// One asset which several threads only look at
	template <typename T> Job looks(Bytes const& b, bool wide) {
		auto x = std::make_shared<T>();
		auto r = Read::from(&b);
		if constexpr (std::is_same_v<T, Mesh>) x->load(r.get(), wide);
		else x->load(r.get());
		return [x](Digest& d) { see(d, *x); };
	}
	void viewed(pbt::Case& k) {
		auto& s = k.src;
		Job j;
		try {
			if (int kind = int(s.below(ag::KINDS + 6)); kind < ag::KINDS) {
				auto b = ag::make(k, kind);
				k.tag(ag::NAME[kind]);
				k.log << b.size() << " bytes as " << ag::NAME[kind];
				switch (kind) {
				case ag::TEX: j = looks<Texture>(b, false); break;
				case ag::FNT: j = looks<Font>(b, false); break;
				case ag::MSH: j = looks<Mesh>(b, false); break;
				case ag::MDH: j = looks<ModelHierarchy>(b, false); break;
				case ag::MRM: j = looks<MultiResolutionMesh>(b, false); break;
				case ag::MDM: j = looks<ModelMesh>(b, false); break;
				case ag::MDL: j = looks<Model>(b, false); break;
				case ag::MAN: j = looks<ModelAnimation>(b, false); break;
				case ag::MMB: j = looks<MorphMesh>(b, false); break;
				default: j = looks<ModelScript>(b, false);
				}
			} else if (kind < ag::KINDS + 3) {
				dat::Gen g {s, {}, {}, {}, {}, {}, {}, {}, 0};
				dat::table(s, g, 10);
				g.im.make_sort();
				auto sc = std::make_shared<DaedalusScript>();
				dat::load(*sc, g.im.encode());
				std::vector<std::string> names;
				for (auto& y : sc->symbols()) names.push_back(vary(s, y.name(), false));
				k.log << g.im.syms.size() << " symbols";
				k.tag("script");
				j = [sc, names](Digest& d) {
					DaedalusScript const& c = *sc;
					for (auto& n : names) { auto* y = c.find_symbol_by_name(n); d(y ? y->index() : ~0u); }
					for (uint32_t i = 0; i <= names.size(); ++i) { auto* y = c.find_symbol_by_index(i); d(y ? y->name() : std::string("none")); }
					for (auto& y : c.symbols()) if (auto* z = c.find_symbol_by_address(y.address())) d(z->name());
				};
			} else {
				Ctx c = gen_ctx(s);
				bool world = false;
				auto b = objgen::generated(k, c, world);
				auto r = Read::from(&b);
				auto o = ReadArchive::from(r.get())->read_object(c.g);
				k.tag(world ? "world" : "object");
				j = [o, g = c.g](Digest& d) { see(d, o, g); };
			}
		} catch (Error const&) { return; }
		together(std::vector<Job>(2 + s.below(3), j), k, 1 + int(s.below(3)));
	}
	/// One file system which is only read, by all threads
	void shared(pbt::Case& k) {
		auto& s = k.src;
		auto tree = gen_root(s, 3);
		Vfs v;
		Bytes image;
		if (s.flip()) {
			image = m_write_vdf(tree, SIG2, m_dos(1000000000));
			auto r = Read::from(&image);
			v.mount_disk(r.get(), VfsOverwriteBehavior::ALL);
		} else
			for (auto& [n, c] : tree.kids) v.mount(m_to_vfs(c), "/", VfsOverwriteBehavior::ALL);
		m_dump(k.log, tree);
		std::vector<std::string> names;
		std::function<void(MNode const&)> collect = [&](MNode const& n) {
			for (auto& [x, c] : n.kids) names.push_back(c.name), collect(c);
		};
		collect(tree);
		names.push_back("nothing");
		std::vector<Job> jobs;
		for (size_t n = 2 + s.below(3); n > 0; --n) {
			std::vector<std::string> ask;
			for (size_t q = 1 + s.below(8); q > 0; --q) ask.push_back(vary(s, s.pick(names), false));
			jobs.push_back([&v, ask](Digest& d) {
				Vfs const& c = v;
				for (auto& a : ask) {
					auto* n = c.find(a);
					d(n != nullptr);
					if (n == nullptr) continue;
					d.all(n->name(), n->time(), n->type());
					if (n->type() == VfsNodeType::FILE) { auto r = n->open_read(); auto b = slurp(*r); d.bytes(b.data(), b.size()); }
					else d(n->children().size());
				}
			});
		}
		together(jobs, k, 1 + int(s.below(6)));
	}
	/// The logger the library brings: nothing is lost or torn whatever several threads log.
	void logger(pbt::Case& k) {
		auto& s = k.src;
		struct Line { LogLevel level; std::string name, text; };
		std::vector<std::vector<Line>> all(2 + s.below(3));
		for (auto& t : all) {
			for (size_t n = 1 + s.below(6); n > 0; --n)
				t.push_back({s.pick({LogLevel::ERROR, LogLevel::WARNING, LogLevel::INFO, LogLevel::DEBUG, LogLevel::TRACE}), s.ident(6), s.ident(s.chance(1, 5) ? 3000 : 30)});
			k.log << "\nthread with " << t.size() << " messages of " << t[0].text.size() << "... bytes";
		}
		auto path = "/tmp/c31-log-" + std::to_string(getpid());
		int was = dup(2), to = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		dup2(to, 2);
		Logger::set_default(LogLevel::TRACE);
		std::atomic<size_t> ready {0};
		std::vector<std::thread> threads;
		for (auto& t : all)
			threads.emplace_back([&] {
				++ready;
				while (ready < all.size()) std::this_thread::yield();
				for (auto& l : t) Logger::log(l.level, l.name.c_str(), "%s", l.text.c_str());
			});
		for (auto& t : threads) t.join();
		listen();
		dup2(was, 2), close(was);
		std::string out(size_t(lseek(to, 0, SEEK_END)), '\0');
		pread(to, out.data(), out.size(), 0);
		close(to), unlink(path.c_str());
		size_t lines = 0;
		std::multiset<std::string> rest;
		for (auto& t : all) for (auto& l : t) rest.insert(l.name + ": " + l.text), ++lines;
		size_t seen = 0;
		for (size_t at = 0, end; (end = out.find('\n', at)) != std::string::npos; at = end + 1, ++seen) {
			auto line = out.substr(at, end - at);
			auto best = rest.end();
			for (auto it = rest.begin(); it != rest.end(); ++it)
				if (line.ends_with(*it) && (best == rest.end() || it->size() > best->size())) best = it;
			bool found = best != rest.end();
			if (found) rest.erase(best);
			CHECK("line", found, "the output has a line which nobody logged: " << pbt::quote(line.substr(0, 200)));
		}
		CHECK("lines", seen == lines, seen << " lines for " << lines << " messages");
		k.nontrivial();
	}
}
int main(int argc, char** argv) {
	listen();
	VirtualObject::enable_packed_save(true);
	pbt::Config cfg {"C31", "At least two threads do work which succeeds and yields something.",
	    {"Schedules are those the operating system makes; the thread sanitizer also reports conflicting accesses which did no harm in the schedule at hand."},
	    {{"own", 11000, 40, own}, {"shared", 6000, 30, shared}, {"viewed", 6000, 30, viewed}, {"logger", 3000, 30, logger}}};
	return pbt::main(argc, argv, cfg);
}
