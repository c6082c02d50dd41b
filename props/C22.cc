// C22: the VM computes what the Daedalus program means.
#include "daerun.hh"

static void programs(pbt::Case& k) {
	dae::Gen g {k.src, {}, {}};
	auto p = g.make();
	dae::history(k, p, nullptr, 5);
}
static void lenient(pbt::Case& k) {
	dae::Gen g {k.src, {}, {}};
	auto p = g.make();
	std::vector<dae::Strategy> none; // always continue; the handler supplies a zero for a failed division
	dae::history(k, p, &none, 5);
}

int main(int argc, char** argv) {
	pbt::Config cfg {"C22", "a call inside the program was made and more than twenty steps were executed",
		{"cases in which the moment an operand is read (when pushed or when used) would change the outcome are left open", "shift distances are 0 to 31", "array indices are constants, as in the byte code"},
		{{"programs", 30000, 20, programs}, {"lenient", 10000, 20, lenient}}};
	return pbt::main(argc, argv, cfg);
}
