// The signature part of C23, compiled on its own because of its many instantiations.
#include "sigs.hh"
void c23_signatures(pbt::Case& k) { sig::signatures(k); }
