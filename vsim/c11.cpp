// C11: the shipped checksum tools, run as processes of a simulated host whose files fail.
// The tools' own sources are compiled unchanged; main, fopen and exit of their objects are renamed
// (objcopy) so that the host starts them and hands out the files. Everything above fopen is real:
// the tools' loops and glibc's stdio, over simulated read() calls.
#include "core.hpp"
#include "ref.hpp"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <streambuf>
#include <unistd.h>

using sim::Sim; using sim::Bytes;

extern "C" int md5sum_main(int, char const**);
extern "C" int hash2sum_main(int, char const**);

namespace
{
std::size_t const PERIOD = 1u << 21;
void pattern(unsigned char* p)          // the stream whose reference states longhaul.txt holds
{
    std::uint64_t x = 0x243F6A8885A308D3ull;
    for(std::size_t i = 0; i < PERIOD; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = (unsigned char)(x >> 56); }
}
Bytes pat;

// ---------------------------------------------------------------- the simulated host
struct File
{
    Bytes head; std::uint64_t huge = 0;                     // huge: that many bytes of the pattern precede head
    int open_errno = 0;
    std::int64_t fail_at = -1; int read_errno = 0;          // the read that would cross this offset fails
    bool transient = false;                                 // ... once; later reads of the same stream succeed
    bool late_eof_data = false;                             // the file grows after end of file was reported
    bool must_fail() const { return open_errno || fail_at >= 0; }
    std::uint64_t size() const { return huge + head.size(); }
};
struct Host
{
    Sim* S; std::map<std::string, File> files; std::string out, err; int open_now = 0, open_limit = 1 << 30, opens = 0; int read_style = 0; std::size_t maxread = 0; bool exhausted = false;
    std::uint64_t reads = 0;
};
Host* H = nullptr;

struct Stream { File* f; std::uint64_t pos = 0; bool failed = false, eof = false; std::vector<char> buf; };

ssize_t s_read(void* c, char* buf, size_t n)
{
    Stream& s = *static_cast<Stream*>(c); Sim& S = *H->S; ++H->reads;
    if(s.eof)
    {
        if(!s.f->late_eof_data) return 0;
        S.fault("growth_after_eof"); std::memset(buf, 'x', n); return n;
    }
    std::uint64_t left = s.f->size() - s.pos; std::uint64_t k = std::min<std::uint64_t>(n, left);
    if(H->read_style && k > 1 && s.pos + (1 << 16) >= s.f->huge)
    {
        std::uint64_t cut = H->read_style == 1 ? 1 + S.choose(std::min<std::uint64_t>(k, 7000)) : 1 + S.choose(std::min<std::uint64_t>(k, H->maxread));
        if(cut < k) { k = cut; S.fault("short_read"); }
    }
    if(s.f->fail_at >= 0 && !(s.failed && s.f->transient))
    {
        if(s.pos + k > (std::uint64_t)s.f->fail_at || s.pos == (std::uint64_t)s.f->fail_at)
        {
            if(s.pos < (std::uint64_t)s.f->fail_at) k = s.f->fail_at - s.pos;      // the bytes before the bad sector still arrive
            else { s.failed = true; S.fault(s.f->transient ? "read_error_transient" : "read_error"); S.step(); errno = s.f->read_errno; return -1; }
        }
    }
    if(!k) { s.eof = true; return 0; }
    std::uint64_t done = 0;
    while(done < k)
    {
        std::uint64_t p = s.pos + done, m;
        if(p < s.f->huge) { m = std::min<std::uint64_t>(std::min<std::uint64_t>(k - done, s.f->huge - p), PERIOD - p % PERIOD); std::memcpy(buf + done, pat.data() + p % PERIOD, m); }
        else { m = k - done; std::memcpy(buf + done, s.f->head.data() + (p - s.f->huge), m); }
        done += m;
    }
    s.pos += k; S.step();
    return k;
}
int s_close(void* c) { --H->open_now; delete static_cast<Stream*>(c); return 0; }
ssize_t o_write(void* c, char const* b, size_t n) { static_cast<std::string*>(c)->append(b, n); return n; }

struct Cap: std::streambuf
{
    FILE* f; explicit Cap(FILE* x): f(x) {}
    int_type overflow(int_type c) override { if(c != traits_type::eof()) std::fputc(c, f); return traits_type::not_eof(c); }
    std::streamsize xsputn(char const* s, std::streamsize n) override { return std::fwrite(s, 1, n, f); }
    int sync() override { std::fflush(f); return 0; }
};
std::jmp_buf exit_point; int exit_code;
} // namespace

extern "C" FILE* vsim_fopen(char const* name, char const* mode)
{
    Sim& S = *H->S; ++H->opens; S.step();
    auto i = H->files.find(name);
    if(mode[0] != 'r') { errno = EROFS; return 0; }
    if(i == H->files.end()) { errno = ENOENT; return 0; }
    File& f = i->second;
    if(f.open_errno) { S.fault("open_error"); errno = f.open_errno; return 0; }
    if(H->open_now >= H->open_limit) { H->exhausted = true; errno = EMFILE; return 0; }
    ++H->open_now;
    cookie_io_functions_t io = {}; io.read = s_read; io.close = s_close;
    Stream* st = new Stream; st->f = &f;
    FILE* r = fopencookie(st, "r", io);
    switch(f.huge ? 3 : S.choose(4))
    {
    case 1: if(f.size() < 3000) { setvbuf(r, 0, _IONBF, 0); break; } // fall through: unbuffered cookies are read byte by byte
    case 2: st->buf.resize(16 + S.choose(6000)); setvbuf(r, st->buf.data(), _IOFBF, st->buf.size()); break;
    case 3: st->buf.resize(1 << 16); setvbuf(r, st->buf.data(), _IOFBF, st->buf.size()); break;
    }
    errno = S.choose(2) ? EAGAIN : 0;                        // errno is unspecified after success
    return r;
}
extern "C" FILE* vsim_fopen64(char const* n, char const* m) { return vsim_fopen(n, m); }
extern "C" void vsim_exit(int rc) { exit_code = rc; std::longjmp(exit_point, 1); }

namespace
{
int run_tool(int (*tool)(int, char const**), std::vector<std::string> const& args)
{
    std::vector<char const*> v; for(auto& a: args) v.push_back(a.c_str()); v.push_back(0);
    cookie_io_functions_t io = {}; io.write = o_write;
    FILE* so = stdout; FILE* se = stderr; int rc;
    FILE* o = fopencookie(&H->out, "w", io); FILE* e = fopencookie(&H->err, "w", io); setvbuf(e, 0, _IONBF, 0);
    Cap co(o), ce(e);
    auto* bo = std::cout.rdbuf(&co); auto* be = std::cerr.rdbuf(&ce);
    stdout = o; stderr = e;
    try { if(setjmp(exit_point) == 0) rc = tool((int)args.size(), v.data()); else rc = exit_code; } catch(...) { stdout = so; stderr = se; std::cout.rdbuf(bo); std::cerr.rdbuf(be); throw; }
    std::cout.flush(); std::fflush(o); std::fflush(e);
    stdout = so; stderr = se; std::cout.rdbuf(bo); std::cerr.rdbuf(be);
    std::fclose(o); std::fclose(e);
    return rc;
}

struct HashName { char const* n; ref::Alg a; };
HashName const hashes[] = { { "md5_128", ref::MD5 }, { "sha1_160", ref::SHA1 }, { "sha2_256", ref::SHA256 }, { "sha2_224", ref::SHA224 }, { "sha2_512", ref::SHA512 }, { "sha2_384", ref::SHA384 },
    { "sha2_512_256", ref::SHA512_256 }, { "sha2_512_224", ref::SHA512_224 }, { "ripemd_160", ref::RMD160 }, { "ripemd_128", ref::RMD128 } };
int const errs[] = { EIO, EISDIR, EINTR, ENOMEM, ESTALE };
int const oerrs[] = { ENOENT, EACCES, EMFILE, EISDIR, ELOOP, EINTR };

std::string hexs(Bytes const& b) { std::string s; for(unsigned char c: b) { s.push_back("0123456789abcdef"[c >> 4]); s.push_back("0123456789abcdef"[c & 15]); } return s; }

std::string file_name(Sim& S, int i)
{
    static char const* const odd[] = { "f", "a file", "100%", "%s%n%d", "-", "--help", "x\ny", "*", "dir/\xc3\xa9.bin", "'q'", "\\", "-rf" };
    std::string s = odd[S.choose(12)];
    if(i || S.choose(2)) s += std::to_string(i);
    if(S.chance(1, 40)) s += std::string(300 + S.choose(5000), 'n');
    return s;
}

void check(Sim& S, ref::Alg alg, std::vector<std::string> const& ops, ref::Hash const* huge_state)
{
    // every operand in turn: its line if it could be read completely, else a diagnostic
    std::string rest = H->out; std::size_t at = 0, eat = 0; int bad = 0;
    for(std::size_t i = 0; i < ops.size(); ++i)
    {
        auto it = H->files.find(ops[i]); S.oracle();
        std::string suffix = " *" + ops[i] + "\n";
        bool must_fail = it == H->files.end() || it->second.must_fail();
        std::string line;
        if(it != H->files.end())
        {
            ref::Hash h = it->second.huge ? *huge_state : ref::Hash(alg); h.update(it->second.head);
            line = hexs(h.result()) + suffix;
        }
        bool present = !line.empty() && rest.compare(at, line.size(), line) == 0;
        if(must_fail)
        {
            ++bad;
            std::size_t where = H->err.find(ops[i], eat);
            bool interrupted = it != H->files.end() && !it->second.open_errno && it->second.read_errno == EINTR && it->second.transient;
            if(where != std::string::npos) eat = where + ops[i].size();
            else if(!interrupted || !present) S.fail("no-diagnostic", "operand %zu could not be read completely but stderr does not mention it: '%s'", i, H->err.c_str());
            if(!interrupted)
            {
                // a line for this operand must not appear here
                std::string hexlike = rest.substr(at, 2 * ref::digest_size(alg));
                bool is_hex = hexlike.size() == 2 * ref::digest_size(alg) && hexlike.find_first_not_of("0123456789abcdef") == std::string::npos;
                if(is_hex && rest.compare(at + hexlike.size(), suffix.size(), suffix) == 0)
                {
                    S.fail("digest-of-unread-file", "operand %zu failed (%s) but a digest was printed: '%s'", i, it == H->files.end() || it->second.open_errno ? "open" : "read", H->out.c_str());
                }
            }
            else if(present) { at += line.size(); }
        }
        else
        {
            if(!present) S.fail("digest-line", "operand %zu of %zu (%llu bytes): expected '%s' at offset %zu of stdout '%s'; stderr '%s'", i, ops.size(), (unsigned long long)it->second.size(), line.c_str(), at, H->out.substr(0, 2000).c_str(), H->err.substr(0, 500).c_str());
            at += line.size();
        }
    }
    if(at != rest.size()) S.fail("extra-output", "stdout has extra text '%s'", rest.substr(at, 500).c_str());
    if(!bad && !H->err.empty()) S.fail("spurious-diagnostic", "every file was read but stderr says '%s'", H->err.c_str());
    S.cov((int)alg, std::min<std::size_t>(ops.size(), 15), std::min(bad, 15), H->read_style);
}
} // namespace

SIM_SCENARIO(shell)
{
    Host host; host.S = &S; H = &host;
    int invocations = 1 + (int)S.choose(2);
    host.read_style = (int)S.choose(3); host.maxread = 1 + S.choose(20);
    int nf = 1 + (int)S.choose(S.chance(1, 20) ? 12 : 5);
    std::vector<std::string> names;
    for(int i = 0; i < nf; ++i)
    {
        std::string n = file_name(S, i); names.push_back(n); File f;
        std::size_t len;
        switch(S.choose(4)) { case 0: len = S.choose(200); break; case 1: len = S.length(4096, 20000); break; case 2: len = 4096 * S.choose(5) + S.choose(3) ; len = len ? len - 1 : 0; break; default: len = S.length(64, host.read_style == 2 ? 400 : 70000); }
        if(host.read_style == 2) len = std::min<std::size_t>(len, 300 * host.maxread);
        f.head = S.data(len);
        switch(S.choose(6))
        {
        case 4: f.open_errno = oerrs[S.choose(6)]; break;
        case 5: f.read_errno = errs[S.choose(5)];
            f.fail_at = S.choose(3) == 0 ? (std::int64_t)len : S.choose(2) ? (std::int64_t)S.choose(len + 1) : std::min<std::int64_t>((std::int64_t)(4096 * S.choose(len / 4096 + 1)), (std::int64_t)len);
            f.transient = S.choose(2); break;
        case 3: f.late_eof_data = true; break;
        }
        S.ev("file %d name='%s' len=%zu open_errno=%d fail_at=%lld errno=%d transient=%d", i, n.substr(0, 40).c_str(), len, f.open_errno, (long long)f.fail_at, f.read_errno, f.transient);
        host.files[n] = f;
    }
    for(int k = 0; k < invocations; ++k)
    {
        bool md5 = S.choose(4) == 0; HashName hn = md5 ? hashes[0] : hashes[S.strat(10)];
        std::vector<std::string> ops; std::size_t no = S.chance(1, 12) ? 8 + S.choose(30) : 1 + S.choose(6);
        for(std::size_t i = 0; i < no; ++i) ops.push_back(S.chance(1, 15) ? "missing" + std::to_string(S.choose(3)) : names[S.choose(names.size())]);
        // few descriptors: a tool that keeps every file open runs out of them
        host.open_limit = S.choose(2) ? 4 + (int)S.choose(4) : 1 << 30;
        std::vector<std::string> args; args.push_back(md5 ? "md5sum" : "hash2sum"); if(!md5) args.push_back(hn.n);
        for(auto& o: ops) args.push_back(o);
        host.out.clear(); host.err.clear(); host.open_now = 0; host.opens = 0;
        int rc = run_tool(md5 ? md5sum_main : hash2sum_main, args);
        S.ev("run %s %s operands=%zu opens=%d reads=%llu rc-zero=%d out=%016llx err=%zu", args[0].c_str(), hn.n, ops.size(), host.opens, (unsigned long long)host.reads, rc == 0, (unsigned long long)sim::fnv(host.out.data(), host.out.size()), host.err.size());
        if(host.exhausted) S.probe("descriptors_exhausted");
        check(S, hn.a, ops, 0);
        if(host.open_now) S.fail("leaked-file", "%d files left open", host.open_now);
    }
    S.nontrivial(); H = nullptr;
}

// usage errors print no digest
SIM_SCENARIO(usage)
{
    Host host; host.S = &S; H = &host;
    File f; f.head = S.data(S.choose(100)); host.files["f"] = f;
    static char const* const bad[] = { "", "md5", "MD5_128", "md5_1289", "md5_12", "sha2_25", "sha2_2566", "sha2_512_25", "sha2_512_2566", "f", "%s", "ripemd_16", "fnv1a_32", "hmac_md5_128", " md5_128" };
    std::vector<std::string> args; args.push_back("hash2sum");
    std::string b;
    if(S.choose(5)) { if(S.choose(2)) b = bad[S.choose(15)]; else { b = hashes[S.choose(10)].n; b[S.choose(b.size())] ^= (char)(1 << S.choose(7)); if(b.find('\0') != std::string::npos) b = "x"; } args.push_back(b); for(std::uint64_t i = S.choose(3); i; --i) args.push_back("f"); }
    for(auto& h: hashes) if(b == h.n) { H = nullptr; return; }
    int rc = run_tool(hash2sum_main, args); S.oracle(2);
    S.ev("usage args=%zu '%s' rc-zero=%d", args.size(), b.c_str(), rc == 0);
    if(!host.out.empty()) S.fail("digest-for-unknown-hash", "'%s' printed '%s'", b.c_str(), host.out.c_str());
    if(host.err.empty()) S.fail("no-diagnostic", "'%s': nothing on stderr", b.c_str());
    S.fault("usage_error"); S.nontrivial(); H = nullptr;
}

namespace
{
struct Saved { int alg; std::uint64_t len; std::string st; }; std::vector<Saved> saved;
std::string unhex(char const* s)
{
    std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for(; s[0] && s[1]; s += 2) r += (char)(v(s[0]) * 16 + v(s[1]));
    return r;
}
void prepare()
{
    pat.resize(PERIOD); pattern(pat.data());
    char const* path = std::getenv("VSIM_LONGHAUL");
    FILE* f = std::fopen(path ? path : "longhaul.txt", "r"); if(!f) _exit(70);
    static char nm[64], hx[8192]; unsigned long long len;
    while(std::fscanf(f, "%63s %llu %8191s", nm, &len, hx) == 3)
        for(auto& h: hashes) if(std::strcmp(nm, ref::name(h.a)) == 0) saved.push_back(Saved{ h.a, len, unhex(hx) });
    std::fclose(f);
}
void huge(Sim& S, std::uint64_t base)
{
    int k = (int)S.strat(11); bool md5 = k == 0; HashName hn = hashes[md5 ? 0 : k - 1];
    std::string const* st = 0; for(auto& s: saved) if(s.alg == hn.a && s.len == base) st = &s.st;
    if(!st) { std::fprintf(stderr, "no saved state\n"); _exit(70); }
    ref::Hash h(hn.a); h.load(*st);
    Host host; host.S = &S; H = &host; host.read_style = (int)S.choose(2);
    File big; big.huge = base; big.head = S.data(S.choose(4) == 3 ? S.choose(9000) : 4096 + S.choose(5000));      // nearly always past the power of two
    bool broken = S.choose(8) == 7;
    if(broken) { big.fail_at = (std::int64_t)(base + S.choose(big.head.size() + 1)); big.read_errno = EIO; }
    File small; small.head = S.data(S.choose(300));
    host.files["big"] = big; host.files["small"] = small;
    std::vector<std::string> ops = { "big", "small" }; std::vector<std::string> args; args.push_back(md5 ? "md5sum" : "hash2sum"); if(!md5) args.push_back(hn.n);
    for(auto& o: ops) args.push_back(o);
    run_tool(md5 ? md5sum_main : hash2sum_main, args);
    S.ev("huge %s %s len=%llu broken=%d out=%s", args[0].c_str(), hn.n, (unsigned long long)big.size(), broken, host.out.c_str());
    check(S, hn.a, ops, &h); S.probe("huge_file"); S.nontrivial(); H = nullptr;
}
}
static void huge29(Sim& S) { huge(S, (1ull << 29) - 4096); }
static sim::Register r29("huge29", huge29, 120, prepare);
static void huge32(Sim& S) { huge(S, (1ull << 32) + (S.choose(2) ? 4096 : -4096)); }
static sim::Register r32("huge32", huge32, 400, prepare);

int main(int argc, char** argv) { return sim::main_(argc, argv, "C11", BUILD_NAME); }
