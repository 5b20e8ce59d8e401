#include "blkcheck.h"
#include <gmlib/sm4/sm4.h>
struct RS : Ref { refblk::Sm4 s; void key(const u8* k, Cov* c) override { refblk::sm4_key(s, k, c); } void crypt(u8* o, const u8* i, bool dec, Cov* c) const override { refblk::sm4_crypt(s, o, i, dec, c); }
    int npos() const override { return 33; } void key_at(u8* k, int pos, const u8* w) const override { refblk::sm4_key_at(k, pos, w); } void back(u8* p, const u8* st, int r) const override { refblk::sm4_back(s, p, st, r); } };
static void setup_algs() { add<sm4::SM4>("SM4", 32, 4, 32, 4, [] { return (Ref*)new RS; }); }
MC_MAIN
