// Line server over the reference implementations, compared with Python by tools/selftest.py
#include "long_ref.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
using namespace ref;
static Bytes unhex(const std::string &s) {
    Bytes b;
    if (s == "-") return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16));
    return b;
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string c, x, y;
        uint64_t n, m;
        is >> c;
        if (c == "hash") is >> n >> m >> x, std::cout << hex(hash((int)n, unhex(x), m)) << "\n";
        else if (c == "split") { // streaming with clone
            is >> n >> m >> x;
            Bytes b = unhex(x);
            auto h = make((int)n);
            size_t k = (size_t)m % (b.size() + 1);
            h->update(b.data(), k);
            auto g = h->clone();
            g->update(b.data() + k, b.size() - k);
            std::cout << hex(g->output(256)) << "\n";
        }
        else if (c == "hmac") is >> n >> x >> y, std::cout << hex(hmac((int)n, unhex(x), unhex(y))) << "\n";
        else if (c == "hotp") { uint64_t d; is >> n >> x >> m >> d; bool ok; uint32_t v = hotp((int)n, unhex(x), m, (unsigned)d, &ok); std::cout << (ok ? zero_pad(v, (unsigned)d) : "undef") << "\n"; }
        else if (c == "enc") is >> n >> x, std::cout << encode((int)n, unhex(x)) << "\n";
        else if (c == "long") { // algorithm, 1 for HMAC, length
            static const Bytes pat = longmsg::pattern();
            uint64_t l;
            is >> n >> m >> l;
            std::cout << hex(m ? longmsg::mac(pat, (int)n, l) : longmsg::state(pat, (int)n, false, l)->output(is_xof((int)n) ? 512 : 0)) << "\n";
        }
        else if (c == "bf") { is >> n >> x >> y; std::cout << hex(Blowfish(unhex(x)).buffer(unhex(y), n != 0)) << "\n"; }
    }
}
