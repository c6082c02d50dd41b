// C20: text and compiled model scripts parse to the described animations.
#include "mdsgen.hh"
using namespace zenkit;

static std::string about(mds::Script const& x) {
	std::ostringstream o;
	o << "script with " << x.anis.size() << " animations, " << x.blends.size() << " blends, " << x.aliases.size() << " aliases, " << x.combs.size() << " combinations";
	return o.str();
}
static ModelScript load(Bytes const& b) {
	Exact e {b};
	auto r = e.open();
	ModelScript s;
	s.load(r.get());
	return s;
}
static void text_case(pbt::Case& k, bool wild) {
	auto& s = k.src;
	auto x = mds::script(s);
	auto t = mds::write_text(s, x, wild);
	if (x.order.size() > 1) k.nontrivial();
	k.log << t << "\n";
	mds::same(x, load(to_bytes(t)), true, about(x), "text");
}
static void text(pbt::Case& k) { text_case(k, false); }
static void layout(pbt::Case& k) { text_case(k, true); }
static void binary(pbt::Case& k) {
	auto& s = k.src;
	auto x = mds::script(s);
	if (x.order.size() > 1) k.nontrivial();
	k.log << mds::write_text(s, x, false) << "\n";
	auto o = mds::write_binary(s, x);
	mds::same(x, load(o.bytes()), false, about(x), "binary");
}
int main(int argc, char** argv) {
	quiet();
	pbt::Config cfg {"C20", "the script lists at least two animations, blends, aliases, combinations, disabled animations or model tags",
	    {"strings have no line breaks or quotation marks; numbers in text have at most six decimals and no exponent", "in text, ground sounds have no range and no slot option, animations no speed, and only tags that take arguments have them", "the compiled form does not tell whether a tag is attached", "a missing closing brace is only generated where another entry or the end of the file follows"},
	    {{"text", 60000, 12, text}, {"layout", 150000, 12, layout}, {"binary", 60000, 12, binary}}};
	return pbt::main(argc, argv, cfg);
}
