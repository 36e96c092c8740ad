// native counterparts of the abstract hash and random source: SM3, except for messages whose digest the check chose
#include <gmlib/sm3/sm3.h>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
static std::vector<std::string>           vc_states(1);
static std::map<std::string, std::string> vc_digests;
static std::vector<u8>                    vc_stream;
static sz                                 vc_pos;
extern "C" {
void vc_h_init(u64* h) { *h = 0; }
void vc_h_update(u64* h, const u8* p, sz n)
{
    vc_states.push_back(vc_states.at(*h) + std::string((const char*)p, n));
    *h = vc_states.size() - 1;
}
void vc_h_final(u64* h, u8* d)
{
    const std::string& s = vc_states.at(*h);
    auto               i = vc_digests.find(s);
    if (i != vc_digests.end())
        std::memcpy(d, i->second.data(), 32);
    else
    {
        sm3::SM3 x;
        x.update((const u8*)s.data(), s.size());
        x.do_final(d);
    }
    // without a reset the object must not be used again: whatever follows is a different message
    vc_states.push_back("spent" + s);
    *h = vc_states.size() - 1;
}
void vc_rng_gen(u8* p, sz n)
{
    if (vc_pos + n > vc_stream.size()) throw std::runtime_error("random source exhausted");
    std::memcpy(p, vc_stream.data() + vc_pos, n);
    vc_pos += n;
}
void vc_digest(const u8* m, sz n, const u8* d) { vc_digests[std::string((const char*)m, n)] = std::string((const char*)d, 32); }
void vc_forget() { vc_digests.clear(); vc_states.assign(1, std::string()); }
sz   vc_used() { return vc_pos; }
}
