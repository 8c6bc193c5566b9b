// X08: media type texts, rejection of malformed ones, and the compatibility relation
#include "jv.hpp"
#include "library/Javax/Ws/Rs/Core/MediaType.hpp"
#include "library/Javax/Ws/Rs/Core/MediaTypeException/MediaTypeException.hpp"
namespace {
using Javax::Ws::Rs::Core::MediaType; using Javax::Ws::Rs::Core::MediaTypeException;
std::string token(Src &s, int max) {
    std::string t; int n = (int) s.range(1, max);
    for (int i = 0; i < n; ++i) t += s.chance(1, 12) ? s.pick<char>({'.', '-', '_', '%', '!', '\xc3', '=', '"'}) : (char) ('a' + s.range(0, s.chance(1, 3) ? 25 : 2));
    return t;
}
std::string typeName(Src &s) { switch (s.range(0, 4)) { case 0: return "application"; case 1: return "text"; case 2: return "multipart"; default: return token(s, s.chance(1, 20) ? 300 : 6); } }
std::string plainSub(Src &s, int wild);
std::string subName(Src &s, int wild) {                  // a star elsewhere is no wildcard; a second '+' may be there
    std::string u = plainSub(s, wild);
    if (u != "*" && s.chance(1, 10)) { u.insert((size_t) s.range(u.compare(0, 2, "*+") ? 1 : 2, (long) u.size()), 1, '*'); LABEL("star inside"); }
    if (u != "*" && s.chance(1, 10)) { u += "+" + token(s, 2); LABEL("another plus"); }
    return u;
}
std::string plainSub(Src &s, int wild) {                  // wild: 0 never, 1 maybe
    switch (s.range(0, wild ? 7 : 4)) {
        case 0: return s.pick<const char *>({"json", "xml", "html", "atom+xml", "hal+json", "svg+xml", "x-www-form-urlencoded"});
        case 1: case 2: return token(s, s.chance(1, 20) ? 300 : 6);
        case 3: return token(s, 4) + "+" + s.pick<const char *>({"xml", "json", "zip"});
        case 4: return token(s, 3) + "+" + token(s, 3);
        case 5: return "*";
        default: return std::string("*+") + (s.chance(3, 4) ? s.pick<const char *>({"xml", "json", "zip"}) : token(s, 3));
    }
}
std::string blanks(Src &s) { std::string b; if (s.chance(1, 3)) while (s.chance(2, 3) && b.size() < 6) b += s.pick<char>({' ', '\t', '\n', '\r'}); return b; }
bool plusWild(const std::string &x) { return x.compare(0, 2, "*+") == 0; }
void check(const MediaType &c, const std::string &t, const std::string &u) {
    MediaType m = c;
    CHECK_EQ(S(m.getType()), t); CHECK_EQ(S(m.getSubtype()), u);
    CHECK_EQ(std::string(m.toString()), t + "/" + u); CHECK_EQ(std::string(m.toString()), t + "/" + u);
    CHECK_EQ((bool) m.isWildcardType(), t == "*"); CHECK_EQ((bool) m.isWildcardSubtype(), u == "*" || plusWild(u));
}
// whether the suffix starts at the first or at the last '+' is not documented: -1 where it matters
int compatible(const std::string &t1, const std::string &u1, const std::string &t2, const std::string &u2) {
    if (t1 == "*" || t2 == "*") return true;
    if (t1 != t2) return false;
    if (u1 == "*" || u2 == "*" || u1 == u2) return true;
    if (plusWild(u1) == plusWild(u2)) return false;
    const std::string &w = plusWild(u1) ? u1 : u2, &o = plusWild(u1) ? u2 : u1;
    size_t p = o.find('+'), q = o.rfind('+');
    if (p == std::string::npos) return false;
    int first = o.substr(p) == w.substr(1), last = o.substr(q) == w.substr(1);   // a wildcard with two '+' has no last reading
    return first == last && w.rfind('+') == 1 ? first : first || last ? -1 : 0;
}
MediaType make(Src &s, const std::string &t, const std::string &u) {
    switch (s.range(0, 2)) {
        case 0: { TRACEF("MediaType(\"%s\", \"%s\")", t.c_str(), u.c_str()); return MediaType(J(t), J(u)); }
        case 1: { TRACEF("MediaType(\"%s\", \"%s\", {charset})", t.c_str(), u.c_str()); ju::HashMap<JString, JString> p; std::string v = s.text(8, 1); p.put("charset", J(v)); p.put("q", "1"); MediaType m(J(t), J(u), p);
            ju::HashMap<JString, JString> got = m.getParameters(); CHECK_EQ((long) got.size(), 2L); CHECK_EQ(S(got.get("charset")), v); CHECK_EQ(S(got.get("q")), std::string("1")); return m; }
        default: {
            std::string text = blanks(s) + t + "/" + u + blanks(s); if (s.chance(1, 3)) { text += ";" + blanks(s) + s.pick<const char *>({"charset=utf-8", "q=0.5; v=1", "", "a/b", ";;", "*/*"}); LABEL("parameters"); }
            if (t == "*" && u == "*" && s.flip()) text = s.flip() ? "*" : " * ; q=1";
            TRACEF("valueOf(\"%s\")", text.c_str()); return MediaType::valueOf(J(text));
        }
    }
}
void malformed(Src &s) {
    std::string text; int k = (int) s.range(0, 5);
    std::string t = typeName(s), u = subName(s, 1), tail = s.chance(1, 3) ? ";" + blanks(s) + s.pick<const char *>({"charset=utf-8", "a/b"}) : "";
    const char *want = nullptr;
    if (k == 0) { text = s.chance(1, 2) ? "" : blanks(s) + tail; want = "must not be empty"; if (text.find_first_not_of(" \t\r\n") != std::string::npos && text[text.find_first_not_of(" \t\r\n")] != ';') return; }
    else if (k == 1) { text = t + tail; if (t.find('/') != std::string::npos || t == "*") return; want = "does not contain"; }
    else if (k == 2) { text = t + "/" + blanks(s) + tail; want = "subtype"; }
    else if (k == 3) { if (u == "*") return; text = "*/" + u + tail; want = "ildcard"; }
    else if (k == 4) { text = "/" + u + tail; want = "must not be empty"; }
    else {                                                            // constructors
        int w = (int) s.range(0, 2); std::string a = w == 0 ? "" : w == 2 ? "*" : t, b = w == 1 ? "" : u; if (w == 2 && u == "*") return;
        bool params = s.flip(); TRACEF("MediaType(\"%s\", \"%s\"%s)", a.c_str(), b.c_str(), params ? ", {}" : "");
        try { ju::HashMap<JString, JString> p; MediaType m = params ? MediaType(J(a), J(b), p) : MediaType(J(a), J(b)); } catch (MediaTypeException &e) { markNontrivial(); LABEL("constructor rejected"); CHECK(S(e.getMessage()).find(w == 2 ? "ildcard" : "must not be empty") != std::string::npos); return; }
        FAIL("accepted");
    }
    TRACEF("valueOf(\"%s\")", text.c_str());
    try { MediaType m = MediaType::valueOf(J(text)); } catch (MediaTypeException &e) { markNontrivial(); LABEL("text rejected"); std::string msg = S(e.getMessage()); TRACEF("-> %s", msg.c_str()); CHECK(msg.find(want) != std::string::npos); return; }
    FAIL("a malformed media type was accepted");
}
void run(Src &s) {
    if (s.chance(1, 5)) { malformed(s); return; }
    std::string t[3], u[3]; std::vector<MediaType> m; int n = (int) s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        t[i] = i && s.chance(3, 4) ? t[0] : s.chance(1, 8) ? "*" : typeName(s); u[i] = t[i] == "*" ? "*" : subName(s, 1);
        if (i && t[i] != "*" && s.chance(1, 4)) u[i] = u[0] == "*" && s.flip() ? subName(s, 1) : u[0];
        if (i && t[i] != "*" && s.chance(1, 6) && !u[0].empty()) { u[i] = u[0]; size_t p = u[0].find('+'); if (p != std::string::npos) u[i] = "*" + u[0].substr(p); else u[i] += "x"; }
        m.push_back(make(s, t[i], u[i]));
        check(m.back(), t[i], u[i]);
    }
    markNontrivial();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        bool ok = m[(size_t) i].isCompatible(m[(size_t) j]); TRACEF("%s/%s ~ %s/%s = %d", t[i].c_str(), u[i].c_str(), t[j].c_str(), u[j].c_str(), (int) ok);
        int want = compatible(t[i], u[i], t[j], u[j]); if (want < 0) LABEL("suffix not settled"); else CHECK_EQ(ok, (bool) want);
        CHECK_EQ(ok, (bool) m[(size_t) j].isCompatible(m[(size_t) i]));
        if (i != j) { if (ok) LABEL("compatible pair"); else LABEL("incompatible pair"); if (ok && (plusWild(u[i]) != plusWild(u[j])) && u[i] != "*" && u[j] != "*" && t[i] != "*" && t[j] != "*") LABEL("suffix match"); }
    }
    for (int i = 0; i < n; ++i) check(m[(size_t) i], t[i], u[i]);
    MediaType any; check(any, "*", "*"); CHECK(any.isCompatible(m[0])); CHECK(m[0].isCompatible(any));
    if (s.flip()) { MediaType again = MediaType::valueOf(m[0].toString()); check(again, t[0], u[0]); LABEL("printed text parsed again"); m[0] = again; check(m[0], t[0], u[0]); }
}
}
PROPERTY(X08, run, 400, "one to three media types were made and compared, or a malformed one was rejected")
