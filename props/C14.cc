// C14: cutscene libraries round-trip and look up exactly by name.
#include "fields.hh"
#include "pbt.hh"
#include <set>
using namespace fld;

static std::string gen_name(pbt::Src& s, std::vector<std::string> const& have, ArchiveFormat fmt) {
	auto clean = [&](std::string n) { for (auto& c : n) if (fmt != ArchiveFormat::BINSAFE && (c == 0 || c == '\n' || c == '\r')) c = '_'; return n; };
	auto one = [&] { return std::string(1, static_cast<char>(s.chance(3, 4) ? "ABab_019"[s.below(8)] : s.u8())); };
	if (!have.empty() && s.chance(2, 3)) { // close to another name
		auto n = s.pick(have);
		switch (s.below(5)) {
		case 0: return clean(n + one());
		case 1: if (!n.empty()) n.pop_back(); return n;
		case 2: if (!n.empty()) n[s.below(n.size())] = one()[0]; return clean(n);
		case 3: for (auto& c : n) c = static_cast<char>(s.flip() ? tolower(c) : toupper(c)); return clean(n);
		default: return clean(one() + n);
		}
	}
	return s.chance(1, 3) ? arch::gen_value_string(s, fmt) : s.ident(8);
}
static void check_library(pbt::Case& k, CutsceneLibrary& got, std::vector<std::shared_ptr<CutsceneBlock>> want, Ctx const& c, std::vector<std::string> const& names) {
	auto& s = k.src;
	std::sort(want.begin(), want.end(), [](auto& a, auto& b) { return a->name < b->name; });
	CHECK("count", got.blocks.size() == want.size(), describe(c) << ": " << want.size() << " blocks became " << got.blocks.size());
	std::map<std::string, CutsceneBlock*> by;
	for (size_t i = 0; i < want.size(); ++i) {
		Dump a {c}, b {c};
		a.put("%", want[i].get()), b.put("%", got.blocks[i].get());
		same(a.out, b.out, false, describe(c), "block");
		by[want[i]->name] = got.blocks[i].get();
		auto m = got.blocks[i]->get_message(), w = want[i]->get_message();
		CHECK("message", bool(m) == bool(w) && (!m || (m->text == w->text && m->name == w->name && m->type == w->type)), describe(c) << ": the message of " << pbt::quote(want[i]->name) << " differs");
	}
	auto ask = [&](std::string const& q) {
		auto r = got.block_by_name(q);
		auto it = by.find(q);
		if (it == by.end()) CHECK("lookup-absent", r == nullptr, describe(c) << ": no block is named " << pbt::quote(q) << " but " << pbt::quote(r ? r->name : "") << " was found");
		else CHECK("lookup", r.get() == it->second, describe(c) << ": block " << pbt::quote(q) << " was not found, got " << (r ? pbt::quote(r->name) : "nothing"));
	};
	for (auto& n : names) ask(n);
	for (size_t i = 0, n = 1 + s.len(8); i < n; ++i) ask(gen_name(s, names, c.fmt));
	ask("");
	ask("\xff\xff");
}
static void library(pbt::Case& k) {
	auto& s = k.src;
	Ctx c = gen_ctx(s);
	Gen g {s, c};
	auto lib = std::make_shared<CutsceneLibrary>();
	std::vector<std::string> names;
	for (size_t i = 0, n = s.len(9); i < n; ++i) {
		auto name = gen_name(s, names, c.fmt);
		if (std::find(names.begin(), names.end(), name) != names.end()) continue;
		auto b = std::static_pointer_cast<CutsceneBlock>(g.build(T::zCCSBlock));
		b->name = name;
		names.push_back(name);
		lib->blocks.push_back(b);
	}
	bool own = s.flip();
	k.log << describe(c) << (own ? " saved:" : " made:");
	for (auto& n : names) k.log << " " << pbt::quote(n);
	k.log << "\n";
	if (names.size() > 1) k.nontrivial();
	Bytes file;
	if (own) {
		auto w = Write::to(&file);
		auto ar = c.save ? WriteArchive::to_save(w.get(), c.fmt) : WriteArchive::to(w.get(), c.fmt);
		ar->write_object(lib, c.g);
		ar->write_header();
	} else {
		Dump d {c};
		d.next = 1;
		d.i32("NumOfItems", static_cast<int>(lib->blocks.size()));
		for (auto& b : lib->blocks) d.put("%", b.get());
		arch::Item it;
		it.k = arch::OBJ, it.name = "%", it.s = "zCCSLib", it.kids = d.out;
		file = arch::encode(c.fmt, c.save, {it}, d.next, static_cast<unsigned>(s.below(8)));
	}
	Exact e {file};
	auto r = e.open();
	auto ar = ReadArchive::from(r.get());
	auto got = ar->read_object<CutsceneLibrary>(c.g);
	CHECK("class", got != nullptr, describe(c) << ": not loaded");
	check_library(k, *got, lib->blocks, c, names);
	if (s.chance(1, 3)) { // messages can be replaced
		for (auto& b : got->blocks) {
			auto m = std::make_shared<ConversationMessageEvent>();
			m->text = "new";
			b->set_message(m);
			CHECK("set-message", b->get_message() == m, "set_message() did not take effect");
		}
	}
	if (s.chance(1, 10)) { // a block without an atomic block has no message
		CutsceneBlock b;
		auto* in = &b;
		for (size_t i = 0, n = s.below(4); i < n; ++i) { auto x = std::make_shared<CutsceneBlock>(); in->block = x, in = x.get(); }
		auto atomic = std::make_shared<CutsceneAtomicBlock>();
		int end = static_cast<int>(s.below(3));
		if (end == 0) in->block = std::shared_ptr<CutsceneBlock> {};
		else if (end == 1) in->block = std::shared_ptr<CutsceneAtomicBlock> {};
		else in->block = atomic;
		CHECK("no-message", b.get_message() == (end == 2 ? atomic->message : nullptr), "the message is not that of the innermost block");
		auto m = std::make_shared<ConversationMessageEvent>();
		b.set_message(m);
		CHECK("no-message", b.get_message() == (end == 2 ? m : nullptr), "set_message() of a block " << (end == 2 ? "did not take effect" : "without content"));
	}
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C14", "the library has more than one block",
	    {"block names of a library are distinct", "loading puts the blocks into the order of their names"},
	    {{"library", 120000, 40, library}}};
	return pbt::main(argc, argv, cfg);
}
