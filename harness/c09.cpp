#include "blkcheck.h"
#include <gmlib/aes/aes.h>
struct RA : Ref { int len; refblk::Aes a; explicit RA(int l) : len(l) {} void key(const u8* k, Cov* c) override { refblk::aes_key(a, k, len, c); } void crypt(u8* o, const u8* i, bool dec, Cov* c) const override { if (dec) refblk::aes_dec(a, o, i, c); else refblk::aes_enc(a, o, i, c); }
    int npos() const override { return 4 * (len / 4 + 7) - len / 4 + 1; } void key_at(u8* k, int pos, const u8* w) const override { refblk::aes_key_at(k, len, pos, w); } void back(u8* p, const u8* st, int r) const override { refblk::aes_back(a, p, st, r); } };
static void setup_algs()
{
    add<aes::AES128>("AES-128", 10, 16, 44, 4, [] { return (Ref*)new RA(16); });
    add<aes::AES192>("AES-192", 12, 16, 52, 4, [] { return (Ref*)new RA(24); });
    add<aes::AES256>("AES-256", 14, 16, 60, 4, [] { return (Ref*)new RA(32); });
}
MC_MAIN
