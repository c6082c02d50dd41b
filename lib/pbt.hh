// Small property-based testing engine: every generated case is a sequence of
// bounded choices, so that any case can be replayed and shrunk generically.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <set>
#include <algorithm>
#include <cstdio>
#include <sstream>
#include <streambuf>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {
	struct Failure {
		std::string key; // stable label of the oracle that failed
		std::string msg;
	};
	struct Discard {};

	class Src {
	public:
		// Uniform-ish value in [0, n); shrinks towards 0.
		uint64_t below(uint64_t n);
		int64_t range(int64_t lo, int64_t hi); // inclusive; shrinks towards lo
		bool flip() { return below(2) != 0; }
		bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
		size_t weighted(std::initializer_list<unsigned> w);
		template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
		template <typename T, size_t N> T const& pick(T const (&v)[N]) { return v[below(N)]; }
		// Interesting integers (small, boundary, random).
		uint64_t u64();
		uint32_t u32();
		int32_t i32() { return static_cast<int32_t>(u32()); }
		uint16_t u16();
		int16_t i16() { return static_cast<int16_t>(u16()); }
		uint8_t u8();
		int8_t i8() { return static_cast<int8_t>(u8()); }
		float finite();      // any finite float, exact bits matter
		float nice();        // float exactly representable with <= 6 decimals when printed with %f
		size_t len(size_t max); // small lengths mostly; shrinks to 0
		std::vector<uint8_t> bytes(size_t max);
		std::string text(size_t max, std::string_view alphabet); // printable without control characters
		std::string ident(size_t max);
		std::string str(size_t max); // printable characters incl. blanks inside, no line breaks

		// engine part
		uint64_t* rec {nullptr};
		size_t rec_cap {0};
		volatile uint64_t* rec_len {nullptr};
		std::vector<uint64_t> const* replay {nullptr};
		size_t pos {0};
		uint64_t rng {0};
		uint64_t raw();
	};

	struct Case {
		Src src;
		uint64_t ordinal {0};   // running number of the case inside its sub-check
		bool interesting {false};
		// human readable description, for samples and replays; survives a crash of the case
		struct LogBuf : std::streambuf {
			std::string s;
			char* mirror {nullptr};
			size_t cap {0};
			int overflow(int ch) override {
				if (ch != EOF) { char c = static_cast<char>(ch); xsputn(&c, 1); }
				return ch;
			}
			std::streamsize xsputn(char const* p, std::streamsize n) override {
				if (s.size() < 60000) {
					if (mirror && s.size() + 1 < cap) {
						size_t k = std::min<size_t>(static_cast<size_t>(n), cap - 1 - s.size());
						memcpy(mirror + s.size(), p, k);
						mirror[s.size() + k] = 0;
					}
					s.append(p, static_cast<size_t>(n));
				}
				return n;
			}
		} logbuf;
		std::ostream log {&logbuf};
		std::string const& log_text() const { return logbuf.s; }
		std::set<std::string> tags;
		void nontrivial(bool b = true) { interesting = interesting || b; }
		void tag(std::string t) { tags.insert(std::move(t)); }
	};

	[[noreturn]] void fail(std::string key, std::string msg);
	[[noreturn]] void discard();

	struct Sub {
		std::string name;
		uint64_t quick;   // cases in the quick tier
		uint64_t thorough_factor; // multiplier in the thorough tier
		std::function<void(Case&)> fn;
		bool known {false}; // reproduction of a listed finding: runs once
	};

	struct Config {
		std::string property;
		std::string rule; // how cases are made, what is non-trivial
		std::vector<std::string> assumptions;
		std::vector<Sub> subs;
		double quick_seconds {60};
		double thorough_seconds {600};
		double case_timeout {10};
	};

	int main(int argc, char** argv, Config cfg);

	std::string scratch_dir(); // per-process scratch directory, removed by the engine
	std::string hex(void const* p, size_t n, size_t max = 64);
	std::string quote(std::string_view s);
} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(key, cond, msg)                                                                                          \
	do {                                                                                                               \
		if (!(cond)) {                                                                                                 \
			std::ostringstream pbt_os_;                                                                                \
			pbt_os_ << msg;                                                                                            \
			::pbt::fail(key, pbt_os_.str());                                                                           \
		}                                                                                                              \
	} while (0)
