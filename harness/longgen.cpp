// Prints harness/long_table.h: reference midstates of the long message. About two minutes on 8 cores.
#include "long_pattern.hpp"
#include <cstdio>
#include <thread>
#include <atomic>
int main() {
    using namespace longmsg;
    Bytes pat = pattern();
    const int N = ref::A_COUNT + ref::A_FIXED;
    std::string out[N][NMARKS];
    std::atomic<int> next{0};
    std::vector<std::thread> t;
    for (int k = 0; k < 8; k++)
        t.emplace_back([&] {
            for (int i; (i = N - 1 - next++) >= 0;) {
                int a = i % ref::A_COUNT;
                auto h = ref::make(a);
                if (i >= ref::A_COUNT) {
                    Bytes k = padded_key(a, 0x36);
                    h->update(k.data(), k.size());
                }
                uint64_t at = 0;
                for (int m = 0; m < NMARKS; m++) {
                    feed(*h, pat, at, offset(a, m));
                    at = offset(a, m);
                    out[i][m] = ref::hex(h->save());
                }
            }
        });
    for (auto &x : t) x.join();
    printf("// Made by tools/gen_long.py. Reference midstates: 16 hashes, then 12 HMACs\n#pragma once\nstatic const char *const LONG_TABLE[%d][%d] = {\n", N, NMARKS);
    for (auto &r : out) {
        printf("    {");
        for (auto &s : r) printf("\"%s\",\n     ", s.c_str());
        printf("},\n");
    }
    printf("};\n");
}
