// Generic byte-level corruption.
#pragma once
#include "common.hh"

inline void mutate(pbt::Src& s, Bytes& b, std::ostream& log) {
	if (b.empty()) return;
	size_t at = s.below(b.size());
	switch (s.below(10)) {
	case 0: b[at] ^= static_cast<std::byte>(1u << s.below(8)); log << " flip@" << at; break;
	case 1: b[at] = static_cast<std::byte>(s.u8()); log << " byte@" << at; break;
	case 2: { // 16 bit
		uint16_t v = s.u16();
		for (size_t i = 0; i < 2 && at + i < b.size(); ++i) b[at + i] = static_cast<std::byte>(v >> (8 * i));
		log << " u16@" << at << "=" << v;
		break;
	}
	case 3:
	case 4: { // 32 bit
		uint32_t v = s.u32();
		for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = static_cast<std::byte>(v >> (8 * i));
		log << " u32@" << at << "=" << v;
		break;
	}
	case 5: { // arithmetic on a 32 bit value
		uint32_t v = 0;
		for (size_t i = 0; i < 4 && at + i < b.size(); ++i) v |= static_cast<uint32_t>(b[at + i]) << (8 * i);
		v += static_cast<uint32_t>(s.below(33)) - 16;
		for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = static_cast<std::byte>(v >> (8 * i));
		log << " add@" << at;
		break;
	}
	case 6: { // delete a block
		size_t n = std::min(b.size() - at, 1 + s.len(40));
		b.erase(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
		log << " del@" << at << "+" << n;
		break;
	}
	case 7: { // duplicate a block
		size_t n = std::min(b.size() - at, 1 + s.len(40));
		Bytes x(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + n));
		size_t to = s.below(b.size() + 1);
		b.insert(b.begin() + static_cast<long>(to), x.begin(), x.end());
		log << " dup@" << at << "+" << n << "->" << to;
		break;
	}
	case 8: { // insert bytes
		auto x = to_bytes(s.bytes(12));
		b.insert(b.begin() + static_cast<long>(at), x.begin(), x.end());
		log << " ins@" << at << "+" << x.size();
		break;
	}
	default: { // overwrite a block with one value
		size_t n = std::min(b.size() - at, 1 + s.len(16));
		auto v = static_cast<std::byte>(s.flip() ? 0xFF : s.flip() ? 0 : s.u8());
		for (size_t i = 0; i < n; ++i) b[at + i] = v;
		log << " fill@" << at << "+" << n;
		break;
	}
	}
}
