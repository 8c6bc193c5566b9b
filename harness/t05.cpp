// T05: StringBuilder histories against a plain character sequence
#include "seqbuf.hpp"
namespace {
void run(Src &s) { seqbuf::history<seqbuf::SbA>(s); }
void textNul() {
    jl::StringBuilder b(JString("ab"));
    b.setLength(3);
    b.append('c');
    CHECK_EQ(S(b.toString()), std::string("ab\0c", 4), "toString of a text with NUL");
}
void lastFrom() {
    jl::StringBuilder b(JString("xxab"));
    CHECK_EQ(b.lastIndexOf(JString("ab"), 2), 2, "lastIndexOf");
}
}
PROPERTY(T05, run, 900, "a case is a history of up to 60 operations over up to 3 live builders; non-trivial: at least 3 edits and a non-empty content", {"builder_text_nul", textNul}, {"builder_lastindexof_from", lastFrom})
