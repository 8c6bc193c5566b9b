// T06 (threads): appended pieces appear once, whole and in the order of their thread
#include "jv.hpp"
#include "conc.hpp"
namespace {
typedef std::string B;
struct Piece { int kind; B text; long num; };
// text must be an interleaving of whole pieces; pos[t] = number of pieces of thread t seen
void consume(const B &text, const std::vector<std::vector<B> > &want, std::vector<size_t> &pos, const char *what) {
    size_t i = 0;
    pos.assign(want.size(), 0);
    while (i < text.size()) {
        bool hit = false;
        for (size_t t = 0; t < want.size() && !hit; ++t)
            if (pos[t] < want[t].size() && text.compare(i, want[t][pos[t]].size(), want[t][pos[t]]) == 0) { i += want[t][pos[t]].size(); ++pos[t]; hit = true; }
        CHECK(hit, what << ": no thread's next piece at offset " << i << " of " << show(text));
    }
}
void run(Src &s) {
    int nt = (int) s.range(2, 4), level = (int) s.range(0, 2);
    bool readers = s.flip(), two = s.chance(1, 4);
    std::vector<std::vector<Piece> > ops((size_t) nt);
    std::vector<std::vector<B> > want((size_t) nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int) s.range(1, 24);
        for (int i = 0; i < n; ++i) {
            Piece p;
            p.kind = (int) s.range(0, 6);
            // every piece starts with its thread's letter and ends with its own mark, so pieces are prefix-free
            B body((size_t) s.range(0, s.chance(1, 6) ? 90 : 6), (char) ('a' + t));
            p.text = B(1, (char) ('A' + t)) + std::to_string(i) + body + ";";
            p.num = (t + 1) * 1000000L + i;
            if (p.kind == 3 || p.kind == 4) p.text = std::to_string(p.num);
            ops[(size_t) t].push_back(p);
            want[(size_t) t].push_back(p.text);
        }
    }
    int cap = (int) s.range(0, 40);
    uint32_t seed = s.u16();
    TRACE(nt << " threads, capacity " << cap << ", noise " << level << (readers ? ", reader" : "") << (two ? ", cross append" : ""));
    for (int t = 0; t < nt; ++t) { B l; for (B &x : want[(size_t) t]) l += " " + x; TRACE("thread " << t << ":" << l); }
    jl::StringBuffer buf(cap), other(cap);
    std::vector<std::function<void()> > f;
    std::atomic<int> running(nt);
    for (int t = 0; t < nt; ++t)
        f.push_back([&, t] {
            conc::Noise noise(seed + (uint32_t) t * 77, level);
            for (Piece &p : ops[(size_t) t]) {
                noise();
                switch (p.kind) {
                    case 0: buf.append(J(p.text)); break;
                    case 1: buf.append((char *) p.text.c_str()); break;
                    case 2: { jl::StringBuffer own(J(p.text)); buf.append(own); break; }
                    case 3: buf.append((int) p.num); break;
                    case 4: buf.append((long) p.num); break;
                    case 5: { JString q = J(p.text); buf.append((const jl::CharSequence &) q); break; }
                    default: buf.append((char *) p.text.c_str(), 0, (int) p.text.size());
                }
                if (two && (noise.next() & 3) == 0 && other.length() < 20000) other.append(t & 1 ? (jl::StringBuffer &) other : buf);
                if (noise.next() % 5 == 0) buf.ensureCapacity(buf.length() + 8);
            }
            --running;
        });
    if (readers)
        f.push_back([&] {
            conc::Noise noise(seed + 991, level);
            int last = 0;
            std::vector<size_t> pos, prev((size_t) nt, 0);
            do {
                noise();
                int l = buf.length();
                CHECK(l >= last, "length went from " << last << " to " << l);
                last = l;
                B text = S(noise.next() & 1 ? buf.toString() : buf.getValue());
                CHECK((int) text.size() >= l, "text shorter than an earlier length");
                consume(text, want, pos, "reader");
                for (int t = 0; t < nt; ++t) { CHECK(pos[(size_t) t] >= prev[(size_t) t], "a piece disappeared"); }
                prev = pos;
                if (l > 0) { int k = (int) (noise.next() % (uint32_t) l); CHECK(buf.charAt(k) == text[(size_t) k], "charAt"); }
                jl::StringBuffer copy(buf);
                consume(S(copy.toString()), want, pos, "copy");
                CHECK(buf.capacity() >= l, "capacity");
            } while (running > 0);
        });
    B err = conc::runAll(f);
    CHECK(err.empty(), err);
    std::vector<size_t> pos;
    consume(S(buf.toString()), want, pos, "final text");
    for (int t = 0; t < nt; ++t) CHECK_EQ(pos[(size_t) t], want[(size_t) t].size(), "pieces of thread " << t);
    markNontrivial();
    if (readers) LABEL("concurrent reader");
}
}
PROPERTY(T06C, run, 600, "a threaded case is 2-4 threads appending 1-24 marked pieces each to one buffer, with or without a reader")
