#include "pbt.hh"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// Allocation cap: one allocation above the cap fails with std::bad_alloc, like it would on a
// machine with less memory. malloc() is still the sanitizer's, so red zones stay in place.
static constexpr size_t ALLOC_CAP = size_t {1} << 30;
size_t g_pbt_alloc_cap = ALLOC_CAP;
#if !__has_feature(thread_sanitizer) // which brings its own
void* operator new(size_t n) {
	if (n > g_pbt_alloc_cap) throw std::bad_alloc();
	void* p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return n > g_pbt_alloc_cap ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" char const* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3500:"
	       "detect_stack_use_after_return=0:handle_abort=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:"
	       "quarantine_size_mb=32:strict_string_checks=0:detect_odr_violation=0:max_allocation_size_mb=2048";
}
extern "C" char const* __ubsan_default_options() { return "print_stacktrace=1:exitcode=77:halt_on_error=1"; }
#endif
#endif

namespace pbt {
	using clk = std::chrono::steady_clock;
	static double now() { return std::chrono::duration<double>(clk::now().time_since_epoch()).count(); }

	static uint64_t splitmix(uint64_t& x) {
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}

	void fail(std::string key, std::string msg) { throw Failure {std::move(key), std::move(msg)}; }
	void discard() { throw Discard {}; }

	uint64_t Src::raw() { return splitmix(rng); }

	uint64_t Src::below(uint64_t n) {
		if (n <= 1) return 0;
		uint64_t v;
		if (replay) {
			v = pos < replay->size() ? (*replay)[pos] : 0;
			if (v >= n) v = n - 1;
		} else {
			v = raw() % n;
		}
		if (rec && pos < rec_cap) {
			rec[pos] = v;
			*rec_len = pos + 1;
		}
		++pos;
		if (pos > 4000000) throw Discard {};
		return v;
	}
	int64_t Src::range(int64_t lo, int64_t hi) {
		return static_cast<int64_t>(static_cast<uint64_t>(lo) + below(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
	}
	size_t Src::weighted(std::initializer_list<unsigned> w) {
		unsigned sum = 0;
		for (auto x : w) sum += x;
		uint64_t v = below(sum);
		size_t i = 0;
		for (auto x : w) {
			if (v < x) return i;
			v -= x;
			++i;
		}
		return 0;
	}
	uint64_t Src::u64() {
		switch (below(4)) {
		case 0: return below(16);
		case 1: return below(65536);
		case 2: return (below(1ull << 32) << 32) | below(1ull << 32);
		default: return ~uint64_t {0} - below(4);
		}
	}
	uint32_t Src::u32() {
		static uint32_t const edge[] = {0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x80000001, 0x7FFFFFFE, 0xFFFFFFFE, 0x10000, 0xFFFF, 0x8000, 0x7FFF,
		                                256, 255, 128, 127, 1000000000u, 0xC4653600u /* -1000000000 */, 0xC46535FFu, 999999999u, 0xFFFF8000u, 0xFFFFFF80u};
		switch (below(5)) {
		case 0: return static_cast<uint32_t>(below(16));
		case 1: return static_cast<uint32_t>(below(100000));
		case 2: return edge[below(std::size(edge))];
		case 3: return 0u - static_cast<uint32_t>(below(100000));
		default: return static_cast<uint32_t>(below(1ull << 32));
		}
	}
	uint16_t Src::u16() {
		static uint16_t const edge[] = {0xFFFF, 0x8000, 0x7FFF, 256, 255, 128, 127, 0xFFFE, 0xFF80};
		switch (below(4)) {
		case 0: return static_cast<uint16_t>(below(16));
		case 1: return edge[below(std::size(edge))];
		default: return static_cast<uint16_t>(below(65536));
		}
	}
	uint8_t Src::u8() {
		static uint8_t const edge[] = {0xFF, 0x80, 0x7F, 0xFE, 1, 16, 15};
		switch (below(4)) {
		case 0: return static_cast<uint8_t>(below(8));
		case 1: return edge[below(std::size(edge))];
		default: return static_cast<uint8_t>(below(256));
		}
	}
	float Src::finite() {
		static float const edge[] = {0.f, 1.f, -1.f, 0.5f, -0.0f, 1e-38f, 3.4028235e38f, -3.4028235e38f, 1.4e-45f, 16777216.f, 0.1f, 1e6f, -123456.789f, 1.17549435e-38f};
		switch (below(4)) {
		case 0: return static_cast<float>(static_cast<int64_t>(below(2001)) - 1000);
		case 1: return edge[below(std::size(edge))];
		case 2: return static_cast<float>(static_cast<int64_t>(below(2000001)) - 1000000) / 64.f;
		default: {
			uint32_t b = static_cast<uint32_t>(below(1ull << 32));
			float f;
			memcpy(&f, &b, 4);
			return std::isfinite(f) ? f : 1.f;
		}
		}
	}
	float Src::nice() {
		// k / 64 with |k| < 2^23 has at most six decimals and is exact in float.
		switch (below(3)) {
		case 0: return static_cast<float>(below(10));
		case 1: return static_cast<float>(static_cast<int64_t>(below(8193)) - 4096) / 64.f;
		default: return static_cast<float>(static_cast<int64_t>(below((1u << 24) - 1)) - ((1 << 23) - 1)) / 64.f;
		}
	}
	size_t Src::len(size_t max) {
		if (max == 0) return 0;
		switch (below(8)) {
		case 0:
		case 1:
		case 2:
		case 3: return below(std::min<size_t>(max, 3) + 1);
		case 4:
		case 5:
		case 6: return below(std::min<size_t>(max, 12) + 1);
		default: return below(max + 1);
		}
	}
	std::vector<uint8_t> Src::bytes(size_t max) {
		std::vector<uint8_t> v(len(max));
		if (v.size() > 64) {
			// long blocks: one choice seeds a cheap pattern, keeps choice sequences short
			uint64_t s = below(1u << 30), z = s;
			bool zero = s % 7 == 0;
			for (auto& b : v) b = zero ? 0 : static_cast<uint8_t>(splitmix(z));
		} else {
			for (auto& b : v) b = u8();
		}
		return v;
	}
	std::string Src::text(size_t max, std::string_view alpha) {
		std::string s(len(max), ' ');
		for (auto& c : s) c = alpha[below(alpha.size())];
		return s;
	}
	std::string Src::ident(size_t max) {
		auto s = text(max, "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789");
		if (s.empty() || (s[0] >= '0' && s[0] <= '9')) s = "A" + s;
		return s;
	}
	std::string Src::str(size_t max) {
		return text(max, "aAbBzZ019_-.,;:/\\()[]{}<>=%$#@!?'&*+^~|\"\xe4\xf6\xfc\xdf ");
	}

	std::string hex(void const* p, size_t n, size_t max) {
		static char const* d = "0123456789abcdef";
		std::string s;
		auto* b = static_cast<uint8_t const*>(p);
		for (size_t i = 0; i < n && i < max; ++i) {
			s += d[b[i] >> 4];
			s += d[b[i] & 15];
		}
		if (n > max) s += "...(" + std::to_string(n) + " bytes)";
		return s;
	}
	std::string quote(std::string_view v) {
		std::string s = "\"";
		for (unsigned char c : v) {
			if (c == '"' || c == '\\') {
				s += '\\';
				s += static_cast<char>(c);
			} else if (c < 0x20 || c >= 0x7f) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", c);
				s += b;
			} else
				s += static_cast<char>(c);
		}
		return s + "\"";
	}

	// ---------------------------------------------------------------- shared state
	constexpr size_t REC_CAP = size_t {1} << 18;
	struct Shared {
		volatile uint64_t rec_len;
		volatile uint64_t ordinal;
		volatile uint64_t sub;
		volatile uint64_t busy; // 1 while a case runs
		volatile double started;
		volatile uint64_t evals, nontrivial, discards;
		volatile uint64_t result; // 0 running/ok, 1 failure recorded
		char key[512];
		char msg[8192];
		char log[16384];
		uint64_t rec[REC_CAP];
	};
	struct Table {
		std::atomic<uint64_t> count;
		std::atomic<uint64_t> slots[1u << 22];
		void add(uint64_t h) {
			if (h == 0) h = 1;
			size_t i = h & ((1u << 22) - 1);
			for (int k = 0; k < 64; ++k, i = (i + 1) & ((1u << 22) - 1)) {
				uint64_t cur = slots[i].load(std::memory_order_relaxed);
				if (cur == h) return;
				if (cur == 0) {
					uint64_t e = 0;
					if (slots[i].compare_exchange_strong(e, h)) {
						count.fetch_add(1);
						return;
					}
					if (e == h) return;
				}
			}
		}
	};
	template <typename T> static T* shm() {
		void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap");
			exit(2);
		}
		return static_cast<T*>(p);
	}
	static void put(char* dst, size_t cap, std::string const& s) {
		size_t n = std::min(cap - 1, s.size());
		memcpy(dst, s.data(), n);
		dst[n] = 0;
	}

	static std::string g_scratch_root;
	static std::string g_scratch;
	std::string scratch_dir() {
		if (g_scratch.empty()) {
			g_scratch = g_scratch_root + "/p" + std::to_string(getpid());
			std::filesystem::create_directories(g_scratch);
		}
		return g_scratch;
	}

	// Runs one case in this process. Returns 0 ok, 1 failure, 2 discard.
	static int run_case(Config const& cfg, size_t sub, uint64_t ordinal, uint64_t seed, std::vector<uint64_t> const* replay, Shared* sh,
	                    Case& c) {
		c.ordinal = ordinal;
		c.src.replay = replay;
		c.src.rng = seed;
		c.src.rec = sh->rec;
		c.src.rec_cap = REC_CAP;
		c.src.rec_len = &sh->rec_len;
		sh->rec_len = 0;
		sh->log[0] = 0;
		c.logbuf.mirror = sh->log;
		c.logbuf.cap = sizeof sh->log;
		try {
			cfg.subs[sub].fn(c);
			return 0;
		} catch (Failure const& f) {
			put(sh->key, sizeof sh->key, cfg.subs[sub].name + "/" + f.key);
			put(sh->msg, sizeof sh->msg, f.msg);
			put(sh->log, sizeof sh->log, c.log_text());
			return 1;
		} catch (Discard const&) {
			return 2;
		} catch (std::exception const& e) {
			put(sh->key, sizeof sh->key, cfg.subs[sub].name + "/unexpected-exception");
			put(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what());
			put(sh->log, sizeof sh->log, c.log_text());
			return 1;
		} catch (...) {
			put(sh->key, sizeof sh->key, cfg.subs[sub].name + "/unexpected-exception");
			put(sh->msg, sizeof sh->msg, "unexpected non-standard exception");
			put(sh->log, sizeof sh->log, c.log_text());
			return 1;
		}
	}

	struct Outcome {
		int kind {0}; // 0 ok, 1 failure, 2 discard, 3 crash, 4 hang
		std::string key, msg, log;
		std::vector<uint64_t> rec;
	};

	static std::string summarize(std::string const& path) {
		std::ifstream f(path);
		std::string line, out;
		int n = 0, frames = 0;
		while (std::getline(f, line)) {
			if (line.find("ERROR:") != std::string::npos || line.find("SUMMARY:") != std::string::npos ||
			    line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos ||
			    line.find("terminate called") != std::string::npos || line.find("what()") != std::string::npos) {
				out += line.substr(0, 300) + "\n";
				if (++n > 6) break;
			} else if (line.find("    #") == 0 && frames < 14) {
				++frames;
				out += line.substr(0, 200) + "\n";
			}
		}
		return out;
	}

	static Outcome exec_child(Config const& cfg, size_t sub, uint64_t ordinal, uint64_t seed, std::vector<uint64_t> const* replay, Shared* sh,
	                          bool keep_stderr) {
		Outcome o;
		sh->result = 0;
		sh->rec_len = 0;
		sh->key[0] = sh->msg[0] = sh->log[0] = 0;
		std::string errpath = g_scratch_root + "/stderr";
		pid_t pid = fork();
		if (pid == 0) {
			int fd = keep_stderr ? open(errpath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600) : open("/dev/null", O_WRONLY);
			dup2(fd, 2);
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			struct rlimit rl {0, 0};
			setrlimit(RLIMIT_CORE, &rl);
			g_scratch.clear();
			Case c;
			int r = run_case(cfg, sub, ordinal, seed, replay, sh, c);
			if (r == 0) put(sh->log, sizeof sh->log, c.log_text());
			std::error_code ec;
			if (!g_scratch.empty()) std::filesystem::remove_all(g_scratch, ec);
			sh->result = 10 + static_cast<uint64_t>(r);
			_exit(0);
		}
		double t0 = now();
		int st = 0;
		bool hung = false;
		for (;;) {
			pid_t w = waitpid(pid, &st, WNOHANG);
			if (w == pid) break;
			if (now() - t0 > cfg.case_timeout) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				hung = true;
				break;
			}
			usleep(500);
		}
		std::error_code ec;
		std::filesystem::remove_all(g_scratch_root + "/p" + std::to_string(pid), ec);
		o.rec.assign(sh->rec, sh->rec + std::min<uint64_t>(static_cast<uint64_t>(sh->rec_len), REC_CAP));
		if (hung) {
			o.kind = 4;
			o.key = cfg.subs[sub].name + "/hang";
			o.msg = "case did not finish within the time limit";
			o.log = sh->log;
		} else if (sh->result < 10) {
			o.kind = 3;
			o.key = cfg.subs[sub].name + "/crash";
			o.msg = "process died: " + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)));
			if (keep_stderr) o.msg += "\n" + summarize(errpath);
			o.log = sh->log;
		} else {
			o.kind = static_cast<int>(sh->result - 10);
			o.key = sh->key;
			o.msg = sh->msg;
			o.log = sh->log;
		}
		return o;
	}

	static bool failing(Outcome const& o) { return o.kind == 1 || o.kind == 3 || o.kind == 4; }

	static std::vector<uint64_t> shrink(Config const& cfg, size_t sub, uint64_t ordinal, std::vector<uint64_t> best, std::string const& key,
	                                    Shared* sh, double budget) {
		double t0 = now();
		auto ok = [&](std::vector<uint64_t> const& cand) {
			auto o = exec_child(cfg, sub, ordinal, 0, &cand, sh, false);
			if (failing(o) && o.key == key) {
				// Keep what was really consumed.
				return true;
			}
			return false;
		};
		auto spent = [&] { return now() - t0 > budget; };
		bool progress = true;
		while (progress && !spent()) {
			progress = false;
			// 1. delete blocks
			for (size_t bs = std::max<size_t>(1, best.size() / 2); bs >= 1 && !spent(); bs /= 2) {
				for (size_t i = 0; i + bs <= best.size() && !spent();) {
					auto cand = best;
					cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + bs));
					if (ok(cand)) {
						best = cand;
						progress = true;
					} else
						i += bs;
				}
				if (bs == 1) break;
			}
			// 2. zero blocks
			for (size_t bs = std::max<size_t>(1, best.size() / 4); bs >= 1 && !spent(); bs /= 2) {
				for (size_t i = 0; i + bs <= best.size() && !spent(); i += bs) {
					bool all0 = true;
					for (size_t k = i; k < i + bs; ++k) all0 = all0 && best[k] == 0;
					if (all0) continue;
					auto cand = best;
					std::fill(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + bs), 0);
					if (ok(cand)) {
						best = cand;
						progress = true;
					}
				}
				if (bs == 1) break;
			}
			// 3. lower single values
			for (size_t i = 0; i < best.size() && !spent(); ++i) {
				uint64_t lo = 0, hi = best[i];
				while (lo < hi && !spent()) {
					uint64_t mid = lo + (hi - lo) / 2;
					auto cand = best;
					cand[i] = mid;
					if (ok(cand)) {
						best = cand;
						hi = mid;
						progress = true;
					} else
						lo = mid + 1;
				}
			}
		}
		while (!best.empty() && best.back() == 0) best.pop_back();
		return best;
	}

	static std::string json_escape(std::string const& s) { return quote(s); }

	struct Known {
		std::string key, what;
	};

	static std::vector<Known> load_known(std::string const& root, std::string const& prop) {
		std::vector<Known> k;
		std::ifstream f(root + "/known_findings.txt");
		std::string line;
		while (std::getline(f, line)) {
			// known: property=<id> key=<key> <what>
			std::string pre = "known: property=" + prop + " key=";
			if (line.rfind(pre, 0) != 0) continue;
			auto rest = line.substr(pre.size());
			auto sp = rest.find(' ');
			k.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1)});
		}
		return k;
	}

	int main(int argc, char** argv, Config cfg) {
		std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
		uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
		std::string root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : ".";
		std::string replay_path, only;
		double secs = -1;
		uint64_t mult = 1;
		bool no_evidence = false, all_failures = false;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--tier") tier = argv[++i];
			else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
			else if (a == "--replay") replay_path = argv[++i];
			else if (a == "--only") only = argv[++i];
			else if (a == "--seconds") secs = atof(argv[++i]);
			else if (a == "--mult") mult = strtoull(argv[++i], nullptr, 10);
			else if (a == "--no-evidence") no_evidence = true;
			else if (a == "--all") all_failures = true;
			else if (a == "--list") {
				for (auto& s : cfg.subs) std::cout << s.name << "\n";
				return 0;
			}
		}
		bool thorough = tier == "thorough";
		double budget = secs > 0 ? secs : (thorough ? cfg.thorough_seconds : cfg.quick_seconds);
		setenv("TZ", "UTC", 0);

		char tmpl[] = "/tmp/pbt.XXXXXX";
		g_scratch_root = mkdtemp(tmpl);
		struct Cleanup {
			~Cleanup() {
				std::error_code ec;
				std::filesystem::remove_all(g_scratch_root, ec);
			}
		} cleanup;

		auto* rsh = shm<Shared>();
		double t0 = now();

		if (!replay_path.empty()) {
			std::ifstream f(replay_path);
			std::stringstream ss;
			ss << f.rdbuf();
			std::string j = ss.str();
			auto field = [&](std::string const& k) {
				auto p = j.find("\"" + k + "\":");
				return p == std::string::npos ? std::string() : j.substr(p + k.size() + 3);
			};
			auto subname = field("sub");
			subname = subname.substr(subname.find('"') + 1);
			subname = subname.substr(0, subname.find('"'));
			uint64_t ord = strtoull(field("ordinal").c_str(), nullptr, 10);
			std::vector<uint64_t> ch;
			auto cs = field("choices");
			cs = cs.substr(cs.find('[') + 1);
			cs = cs.substr(0, cs.find(']'));
			std::stringstream cst(cs);
			std::string tok;
			while (std::getline(cst, tok, ',')) {
				if (tok.find_first_of("0123456789") != std::string::npos) ch.push_back(strtoull(tok.c_str(), nullptr, 10));
			}
			for (size_t i = 0; i < cfg.subs.size(); ++i) {
				if (cfg.subs[i].name != subname) continue;
				auto o = exec_child(cfg, i, ord, 0, &ch, rsh, true);
				std::cout << "case:\n" << o.log << "\n";
				if (failing(o)) {
					std::cout << "still fails: " << o.key << "\n" << o.msg << "\n";
					std::cout << "VIOLATION property=" << cfg.property << " replay=" << replay_path << "\n";
					return 1;
				}
				std::cout << "replay passes\n";
				return 0;
			}
			std::cout << "unknown sub-check " << subname << "\n";
			return 2;
		}

		auto known = load_known(root, cfg.property);
		std::set<std::string> known_seen;
		auto is_known = [&](std::string const& key) -> Known const* {
			for (auto& k : known)
				if (k.key == key) return &k;
			return nullptr;
		};

		unsigned nw = std::min<unsigned>(8, std::max(1u, static_cast<unsigned>(sysconf(_SC_NPROCESSORS_ONLN))));
		if (auto const* w = getenv("PBT_WORKERS")) nw = std::max(1, atoi(w)); // used by tools/mutants.py
		auto* table = shm<Table>();
		std::vector<Shared*> sh(nw);
		for (auto& s : sh) s = shm<Shared>();

		struct Work {
			size_t sub;
			uint64_t count;
		};
		std::vector<Work> work;
		std::vector<size_t> known_subs;
		for (size_t i = 0; i < cfg.subs.size(); ++i) {
			if (!only.empty() && cfg.subs[i].name.find(only) == std::string::npos) continue;
			if (cfg.subs[i].known) {
				known_subs.push_back(i);
				continue;
			}
			work.push_back({i, (thorough ? cfg.subs[i].quick * std::max<uint64_t>(1, cfg.subs[i].thorough_factor) : cfg.subs[i].quick) * mult});
		}

		// Interleave the sub-checks: case number n belongs to sub-check by weighted round robin, so that a
		// time limit cuts all of them evenly.
		uint64_t total = 0;
		for (auto& w : work) total += w.count;

		uint64_t violations = 0, evals = 0, nontriv = 0, discards = 0, known_hits = 0;
		bool timed_out = false;
		std::map<std::string, uint64_t> tagcount;
		std::vector<std::string> samples;
		std::vector<Outcome> found;
		struct FoundAt {
			size_t sub;
			uint64_t ordinal;
			Outcome o;
		};
		std::vector<FoundAt> fails;
		std::set<std::string> failkeys;

		auto worker = [&](unsigned w, std::vector<uint64_t> start) {
			// start[k] = first ordinal of work item k for this worker
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			std::string ep = g_scratch_root + "/err" + std::to_string(w);
			int fd = open(ep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
			dup2(fd, 2);
			struct rlimit rl {0, 0};
			setrlimit(RLIMIT_CORE, &rl);
			g_scratch.clear();
			std::map<std::string, uint64_t> tags;
			std::vector<std::string> smp;
			auto flush = [&] {
				std::ofstream of(g_scratch_root + "/tags" + std::to_string(w), std::ios::app);
				for (auto& [k, v] : tags) of << v << " " << k << "\n";
				tags.clear();
				std::ofstream os(g_scratch_root + "/samples" + std::to_string(w), std::ios::app);
				for (auto& s : smp) os << s << '\0';
				smp.clear();
			};
			auto cur = start;
			size_t smp_total = 0;
			for (;;) {
				bool any = false;
				for (size_t k = 0; k < work.size(); ++k) {
					// proportional step: each sub-check runs ~count/100 cases per turn
					uint64_t step = std::max<uint64_t>(1, work[k].count / nw / 100);
					for (uint64_t q = 0; q < step && cur[k] < work[k].count; ++q, cur[k] += nw) {
						any = true;
						if (now() - t0 > budget) {
							flush();
							sh[w]->busy = 0;
							std::error_code ec;
							if (!g_scratch.empty()) std::filesystem::remove_all(g_scratch, ec);
							_exit(5);
						}
						uint64_t ord = cur[k];
						uint64_t s = seed * 0x9E3779B97F4A7C15ull ^ (work[k].sub + 1) * 0xD1B54A32D192ED03ull ^ (ord + 1) * 0x2545F4914F6CDD1Dull;
						sh[w]->sub = k;
						sh[w]->ordinal = ord;
						sh[w]->started = now();
						sh[w]->busy = 1;
						Case c;
						int r = run_case(cfg, work[k].sub, ord, s, nullptr, sh[w], c);
						sh[w]->busy = 0;
						sh[w]->evals = sh[w]->evals + 1;
						if (r == 1) {
							flush();
							sh[w]->result = 1;
							std::error_code ec;
							if (!g_scratch.empty()) std::filesystem::remove_all(g_scratch, ec);
							_exit(3);
						}
						if (r == 2) {
							sh[w]->discards = sh[w]->discards + 1;
							continue;
						}
						tags["sub:" + cfg.subs[work[k].sub].name]++;
						for (auto& t : c.tags) tags[t]++;
						if (c.interesting) {
							sh[w]->nontrivial = sh[w]->nontrivial + 1;
							uint64_t h = 1469598103934665603ull ^ (work[k].sub * 1099511628211ull);
							for (uint64_t i = 0; i < sh[w]->rec_len && i < REC_CAP; ++i) h = (h ^ sh[w]->rec[i]) * 1099511628211ull;
							table->add(h);
							if (w == 0 && smp_total < 3 * work.size() && cur[k] / nw < 3) {
								smp.push_back(cfg.subs[work[k].sub].name + ": " + c.log_text().substr(0, 1200));
								++smp_total;
							}
						}
					}
				}
				if (!any) break;
			}
			flush();
			std::error_code ec;
			if (!g_scratch.empty()) std::filesystem::remove_all(g_scratch, ec);
			_exit(0);
		};

		std::vector<pid_t> pids(nw, -1);
		auto launch = [&](unsigned w, std::vector<uint64_t> start) {
			sh[w]->result = 0;
			sh[w]->busy = 0;
			pid_t p = fork();
			if (p == 0) worker(w, std::move(start));
			pids[w] = p;
		};
		std::vector<std::vector<uint64_t>> starts(nw, std::vector<uint64_t>(work.size()));
		std::vector<unsigned> restarts(nw, 0);
		if (!work.empty())
			for (unsigned w = 0; w < nw; ++w) {
				for (auto& x : starts[w]) x = w;
				launch(w, starts[w]);
			}
		auto alive = [&] { return std::any_of(pids.begin(), pids.end(), [](pid_t p) { return p > 0; }); };
		bool stop = false;
		while (alive()) {
			bool changed = false;
			for (unsigned w = 0; w < nw; ++w) {
				if (pids[w] <= 0) continue;
				int st = 0;
				pid_t r = waitpid(pids[w], &st, WNOHANG);
				bool hung = false;
				if (r == 0) {
					if (sh[w]->busy && now() - sh[w]->started > cfg.case_timeout) {
						kill(pids[w], SIGKILL);
						waitpid(pids[w], &st, 0);
						hung = true;
					} else
						continue;
				}
				changed = true;
				std::error_code ec;
				std::filesystem::remove_all(g_scratch_root + "/p" + std::to_string(pids[w]), ec);
				pids[w] = -1;
				if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 5) {
					timed_out = true;
					continue;
				}
				if (stop) continue;
				// A failure of some kind.
				size_t k = sh[w]->sub;
				uint64_t ord = sh[w]->ordinal;
				Outcome o;
				o.rec.assign(sh[w]->rec, sh[w]->rec + std::min<uint64_t>(static_cast<uint64_t>(sh[w]->rec_len), REC_CAP));
				if (hung) {
					o.kind = 4;
					o.key = cfg.subs[work[k].sub].name + "/hang";
				} else if (sh[w]->result == 1) {
					o.kind = 1;
					o.key = sh[w]->key;
					o.msg = sh[w]->msg;
					o.log = sh[w]->log;
				} else {
					o.kind = 3;
					o.key = cfg.subs[work[k].sub].name + "/crash";
					o.msg = summarize(g_scratch_root + "/err" + std::to_string(w));
				}
				bool resume = false;
				if (auto* kf = is_known(o.key)) {
					known_seen.insert(kf->key);
					++known_hits;
					resume = true;
				} else {
					if (failkeys.insert(o.key).second) fails.push_back({work[k].sub, ord, o});
					if (all_failures) resume = true;
					else stop = true;
				}
				if (resume && restarts[w]++ < 2000) {
					// continue behind the failing case; sub-checks proceed in turns, so resume each at the
					// position the dead worker had reached is unknown for others: keep it simple and only
					// step the failing one, others continue from a conservative estimate.
					for (size_t q = 0; q < work.size(); ++q) {
						uint64_t frac = work[k].count ? (ord * work[q].count) / std::max<uint64_t>(1, work[k].count) : 0;
						uint64_t v = q == k ? ord + nw : (frac / nw) * nw + w;
						starts[w][q] = std::max(starts[w][q], v);
					}
					launch(w, starts[w]);
				}
			}
			if (stop) {
				for (auto& p : pids)
					if (p > 0) kill(p, SIGKILL);
			}
			if (!changed) usleep(2000);
		}
		for (unsigned w = 0; w < nw; ++w) {
			evals += sh[w]->evals;
			nontriv += sh[w]->nontrivial;
			discards += sh[w]->discards;
			std::ifstream f(g_scratch_root + "/tags" + std::to_string(w));
			std::string line;
			while (std::getline(f, line)) {
				auto sp = line.find(' ');
				if (sp != std::string::npos) tagcount[line.substr(sp + 1)] += strtoull(line.c_str(), nullptr, 10);
			}
			std::ifstream s(g_scratch_root + "/samples" + std::to_string(w));
			std::string all((std::istreambuf_iterator<char>(s)), {});
			size_t p = 0;
			while (p < all.size() && samples.size() < 12) {
				auto e = all.find('\0', p);
				if (e == std::string::npos) break;
				samples.push_back(all.substr(p, e - p));
				p = e + 1;
			}
		}

		// listed findings: reproduce each once
		for (auto i : known_subs) {
			auto o = exec_child(cfg, i, 0, 1, nullptr, rsh, true);
			++evals;
			if (!failing(o)) continue;
			if (auto* kf = is_known(o.key)) known_seen.insert(kf->key);
			else if (failkeys.insert(o.key).second) fails.push_back({i, 0, o});
		}
		for (auto& k : known)
			if (known_seen.count(k.key)) std::cout << "KNOWN-FINDING: property=" << cfg.property << " " << k.what << "\n";

		int rc = 0;
		for (auto& f : fails) {
			std::cout << "failure in " << f.o.key << " (ordinal " << f.ordinal << ", " << f.o.rec.size() << " choices)\n" << f.o.msg << "\n";
			std::cout.flush();
			// confirm: the recorded choices have to fail again, three times
			auto conf = [&](std::vector<uint64_t> const& ch) {
				int n = 0;
				for (int q = 0; q < 3; ++q) {
					auto o = exec_child(cfg, f.sub, f.ordinal, 0, &ch, rsh, false);
					n += failing(o) && o.key == f.o.key;
				}
				return n;
			};
			auto choices = f.o.rec;
			int n = conf(choices);
			if (n == 0) {
				std::cout << "note: the failure did not reproduce in isolation (" << f.o.key << "); not reported as a violation\n";
				continue;
			}
			if (n == 3) choices = shrink(cfg, f.sub, f.ordinal, choices, f.o.key, rsh, f.o.kind == 4 ? cfg.case_timeout * 12 : (thorough ? 90 : 40));
			auto o = exec_child(cfg, f.sub, f.ordinal, 0, &choices, rsh, true);
			if (!failing(o)) o = f.o;
			std::filesystem::create_directories(root + "/replays");
			uint64_t h = 1469598103934665603ull;
			for (char ch : f.o.key) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ull;
			char hb[20];
			snprintf(hb, sizeof hb, "%08x", static_cast<unsigned>(h));
			std::string path = root + "/replays/" + cfg.property + "-" + hb + ".json";
			std::ofstream rf(path);
			rf << "{\"property\":" << json_escape(cfg.property) << ",\n\"sub\":" << json_escape(cfg.subs[f.sub].name) << ",\n\"ordinal\":" << f.ordinal
			   << ",\n\"seed\":" << seed << ",\n\"key\":" << json_escape(f.o.key) << ",\n\"message\":" << json_escape(o.msg)
			   << ",\n\"case\":" << json_escape(o.log) << ",\n\"choices\":[";
			for (size_t i = 0; i < choices.size(); ++i) rf << (i ? "," : "") << choices[i];
			rf << "]}\n";
			rf.close();
			std::cout << "minimal case (" << choices.size() << " choices):\n" << o.log << "\n" << o.msg << "\n";
			std::cout << "VIOLATION property=" << cfg.property << " replay=" << path << "\n";
			std::cout.flush();
			++violations;
			rc = 1;
		}

		if (!no_evidence) {
			std::filesystem::create_directories(root + "/evidence");
			std::ofstream e(root + "/evidence/" + cfg.property + ".json");
			e << "{\"property\":" << json_escape(cfg.property) << ",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << seed
			  << ",\"level\":\"exploration\",\n\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << table->count.load()
			  << ",\"nontrivial\":" << nontriv << ",\"discarded\":" << discards << ",\"planned\":" << total
			  << ",\"time_limited\":" << (timed_out ? "true" : "false") << ",\n\"rule\":" << json_escape(cfg.rule) << ",\n\"classes\":{";
			bool first = true;
			for (auto& [k, v] : tagcount) {
				e << (first ? "" : ",") << json_escape(k) << ":" << v;
				first = false;
			}
			e << "},\n\"samples\":[";
			for (size_t i = 0; i < samples.size(); ++i) e << (i ? ",\n" : "") << json_escape(samples[i]);
			e << "]},\n\"assumptions\":[";
			for (size_t i = 0; i < cfg.assumptions.size(); ++i) e << (i ? "," : "") << json_escape(cfg.assumptions[i]);
			e << "],\"wall_s\":" << (now() - t0) << ",\"violations\":" << violations << "}\n";
		}
		std::cout << cfg.property << " " << tier << ": " << evals << " cases, " << table->count.load() << " distinct non-trivial, " << discards
		          << " discarded, " << violations << " violations" << (timed_out ? " (time limit)" : "") << ", " << (now() - t0) << " s\n";
		return rc;
	}
} // namespace pbt
