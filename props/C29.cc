// C29: the log delivers exactly the enabled messages, and what is logged never matters to the result.
#include "fields.hh"
#include "mutate.hh"
#include "pbt.hh"
#include <functional>
#include <sys/mman.h>
#include <unistd.h>
#include <zenkit/Logger.hh>
using namespace zenkit;

struct Line { int sink; LogLevel lvl; std::string name, text; };
static std::vector<Line> seen;
static void as_expected(std::string const& got, std::string const& want, std::string const& w) {
	// long messages are cut
	bool ok = want.size() <= 4000 ? got == want : got.size() >= 4000 && want.compare(0, got.size(), got) == 0;
	CHECK("text", ok, w << ": the message " << pbt::quote(want.substr(0, 200)) << " arrived as " << pbt::quote(got.substr(0, 200)));
}
static char const* const words[] {"ERROR", "WARNING", "INFO", "DEBUG", "TRACE"};
static void history(pbt::Case& k) {
	auto& s = k.src;
	int sink = 0, level = 0; // sink: -1 the default one, 0 none, otherwise the number of the callback
	int made = 0;
	Logger::set(LogLevel::INFO, {});
	seen.clear();
	size_t logged = 0;
	bool legacy = false;
	for (size_t n = 0, ops = 1 + s.len(20); n < ops; ++n) {
		switch (s.weighted({2, 1, 1, 1, 12})) {
		case 0: {
			int id = sink = ++made;
			level = static_cast<int>(s.below(5)), legacy = false;
			k.log << "set " << words[level] << "; ";
			Logger::set(static_cast<LogLevel>(level), [id](LogLevel l, char const* name, char const* msg) { seen.push_back({id, l, name, msg}); });
			break;
		}
		case 1: sink = -1, level = static_cast<int>(s.below(5)), legacy = false; k.log << "default " << words[level] << "; "; Logger::set_default(static_cast<LogLevel>(level)); break;
		case 2: sink = 0, level = static_cast<int>(s.below(5)); k.log << "none; "; Logger::set(static_cast<LogLevel>(level), {}); break;
		case 3: {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
			level = 2;
			if (s.flip()) { sink = -1; k.log << "default; "; Logger::use_default_logger(); break; }
			int id = sink = ++made;
			legacy = true;
			k.log << "use_logger; ";
			Logger::use_logger([id](LogLevel l, std::string const& msg) { seen.push_back({id, l, "", msg}); });
#pragma GCC diagnostic pop
			break;
		}
		default: {
			auto l = static_cast<int>(s.below(5));
			std::string name = s.ident(8), a = s.chance(1, 8) ? std::string(s.below(6000), 'm') : s.ident(20);
			for (auto* x : {&name, &a}) for (auto& c : *x) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
			auto num = s.i32();
			auto un = s.u32();
			std::string want;
			seen.clear();
			FILE* f = nullptr;
			int saved = -1;
			if (sink == -1) {
				f = fdopen(memfd_create("log", 0), "w+");
				CHECK("scratch", f, "no scratch file");
				fflush(stderr), saved = dup(2), dup2(fileno(f), 2);
			}
			auto* nm = name.c_str();
			auto L = static_cast<LogLevel>(l);
			switch (s.below(5)) {
			case 0: Logger::log(L, nm, "%s", a.c_str()); want = a; break;
			case 1: Logger::log(L, nm, "plain"); want = "plain"; break;
			case 2: Logger::log(L, nm, "%s: %d %u", a.c_str(), num, un); want = a + ": " + std::to_string(num) + " " + std::to_string(un); break;
			case 3: Logger::log(L, nm, "%d%%", num); want = std::to_string(num) + "%"; break;
			default: Logger::log(L, nm, "[%s %s %u %u] x", a.c_str(), name.c_str(), un, un); want = "[" + a + " " + name + " " + std::to_string(un) + " " + std::to_string(un) + "] x"; break;
			}
			std::string out;
			if (f) {
				fflush(stderr), dup2(saved, 2), close(saved);
				rewind(f);
				char b[8192];
				for (size_t r; (r = fread(b, 1, sizeof b, f)) > 0;) out.append(b, r);
				fclose(f);
			}
			k.log << "log " << words[l] << " " << want.size() << "; ";
			bool on = sink != 0 && l <= level;
			std::string w = std::string(words[l]) + " with a threshold of " + words[level];
			logged += on;
			if (sink == -1) {
				CHECK("default-filter", out.empty() != on, w << ": the default log " << (on ? "is empty" : "shows the message"));
				if (!on) break;
				auto at = out.find(name + ": ");
				CHECK("default-name", at != out.npos && out.back() == '\n' && std::count(out.begin(), out.end(), '\n') == 1, w << ": the default log shows " << pbt::quote(out.substr(0, 200)));
				for (int i = 0; i < 5; ++i) CHECK("default-level", (out.substr(0, at).find(words[i]) != out.npos) == (i == l), w << ": the default log shows " << pbt::quote(out.substr(0, 200)));
				as_expected(out.substr(at + name.size() + 2, out.size() - at - name.size() - 3), want, w);
				CHECK("sink", seen.empty(), w << ": a former sink was called");
				break;
			}
			CHECK("filter", seen.size() == (on ? 1 : 0), w << ": delivered " << seen.size() << " times");
			if (!on) break;
			CHECK("sink", seen[0].sink == sink && seen[0].lvl == L, w << ": delivered to another sink or with another level");
			if (legacy) as_expected(seen[0].text, name + ": " + want, w);
			else {
				CHECK("name", seen[0].name == name, w << ": the name " << name << " arrived as " << pbt::quote(seen[0].name));
				as_expected(seen[0].text, want, w);
			}
		}
		}
	}
	quiet();
	if (logged > 1) k.nontrivial();
}

static std::string difference(std::string const& a, std::string const& b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
	size_t from = i > 24 ? i - 24 : 0;
	size_t e = 0;
	while (e < a.size() && e < b.size() && a[a.size() - 1 - e] == b[b.size() - 1 - e]) ++e;
	auto tail = [&](std::string const& x) { auto at = x.size() > e + 24 ? x.size() - e - 24 : 0; return pbt::quote(x.substr(at, 48)); };
	return "\n(ends " + tail(a) + " / " + tail(b) + ")\n(byte " + std::to_string(i) + ": " + pbt::quote(a.substr(from, 48)) + " / " + pbt::quote(b.substr(from, 48)) + ")";
}
// Loading does the same whether and where messages are logged.
static void silent(pbt::Case& k) {
	auto& s = k.src;
	fld::Ctx c0 = fld::gen_ctx(s);
	fld::Gen g {s, c0};
	auto& cl = fld::classes();
	auto made = g.build(cl[s.below(cl.size())].type);
	fld::Dump dump {c0};
	dump.put("%", made.get());
	std::vector<arch::Item*> all;
	std::function<void(arch::Items&)> walk = [&](arch::Items& v) { for (auto& i : v) if (i.k == arch::OBJ) all.push_back(&i), walk(i.kids); };
	walk(dump.out);
	k.log << fld::describe(c0);
	if (!all.empty())
		switch (auto& o = *all[s.below(all.size())]; s.below(4)) {
		case 0: { arch::Item x; x.name = "surplus", x.u = s.u32(), o.kids.push_back(x); k.log << " surplus entry in " << o.s; break; }
		case 1: o.s = s.flip() ? "zCUnknown:" + o.s : "zCNothing"; k.log << " unknown class " << o.s; break;
		case 2: o.k = arch::REF, o.s.clear(), o.kids.clear(), o.u = o.index = 5000; k.log << " dangling reference"; break;
		default: break;
		}
	auto file = arch::encode(c0.fmt, c0.save, dump.out, dump.next, static_cast<unsigned>(s.below(8)));
	if (s.chance(1, 3)) mutate(s, file, k.log);
	size_t messages = 0;
	std::string first;
	for (int mode = 0; mode < 3; ++mode) {
		if (mode == 0) Logger::set(LogLevel::TRACE, [&](LogLevel, char const*, char const*) { ++messages; });
		else if (mode == 1) Logger::set(LogLevel::TRACE, {});
		else Logger::set(LogLevel::ERROR, [](LogLevel, char const*, char const*) {});
		std::ostringstream out;
		Exact e {file};
		try {
			auto r = e.open();
			auto ar = ReadArchive::from(r.get());
			auto o = ar->read_object(c0.g);
			out << (o ? "object" : "nothing") << " up to " << r->tell() << "\n";
			if (o) { // what was loaded, behind the header and its date
				Bytes b;
				auto w = Write::to(&b);
				auto to = WriteArchive::to(w.get(), ArchiveFormat::BINARY);
				to->write_object(o, c0.g);
				std::string t(reinterpret_cast<char const*>(b.data()), b.size());
				out << t.substr(t.find("objects"));
			}
		} catch (Error const& x) {
			out << "error " << x.what();
		}
		if (mode == 0) first = out.str();
		else if (first != out.str()) { quiet(); CHECK("silent", false, "with another log, loading gives\n" << pbt::quote(out.str().substr(0, 60)) << "\ninstead of\n" << pbt::quote(first.substr(0, 60)) << difference(first, out.str())); }
	}
	quiet();
	k.log << " " << messages << " messages\n";
	if (messages) k.nontrivial();
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C29", "history: more than one message was enabled; silent: loading logs something",
	    {"messages of up to 4000 characters arrive whole, longer ones may be cut", "the layout of the default log's lines is only compared for the level, the name and the message"},
	    {{"history", 60000, 20, history}, {"silent", 60000, 20, silent}}};
	return pbt::main(argc, argv, cfg);
}
