// T06: StringBuffer histories against a plain character sequence, and shared by threads
#include "seqbuf.hpp"
namespace { void run(Src &s) { seqbuf::history<seqbuf::SfA>(s); } }
PROPERTY(T06, run, 900, "a case is a history of up to 60 operations over up to 3 live buffers; non-trivial: at least 3 edits and a non-empty content")
