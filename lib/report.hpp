#ifndef VF_REPORT_HPP
#define VF_REPORT_HPP
// Harness side of the verdict protocol.
//   FAIL key=<key> case=<id> <detail>          one per observed violation
//   stats are written as JSON to the file given with --out
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <vector>
#include <cstdarg>
#include <csignal>
#include <stdexcept>
#include <unistd.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "rng.hpp"
namespace vf {
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for(char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }
inline std::string fmt(const char* f, ...)
{   char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap); return buf; }
struct Report {
    uint64_t seed = 1; long lo = 0, hi = 1, step = 1; long only = -1; bool thorough = false; bool verbose = false;
    std::string out, progress, variant;
    long cur = -1; bool quiet = false; std::set<std::string>* capture = nullptr; long nfail = 0; bool case_failed = false;
    std::map<std::string, long> counters; std::map<std::string, long> fails;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long* prog_mem = nullptr;
    void args(int argc, char** argv)
    {   for(int i = 1; i < argc; ++i)
        {   std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if( a == "--seed" ) seed = strtoull(nx().c_str(), 0, 10);
            else if( a == "--lo" ) lo = atol(nx().c_str());
            else if( a == "--hi" ) hi = atol(nx().c_str());
            else if( a == "--step" ) step = atol(nx().c_str());
            else if( a == "--case" ) only = atol(nx().c_str());
            else if( a == "--thorough" ) thorough = true;
            else if( a == "--verbose" ) verbose = true;
            else if( a == "--variant" ) variant = nx();
            else if( a == "--out" ) out = nx();
            else if( a == "--progress" ) progress = nx();
            else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(3); }
        }
        if( ! progress.empty() )
        {   int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
            if( fd >= 0 && ftruncate(fd, 4096) == 0 )
            {   void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if( p != MAP_FAILED ) prog_mem = (long*)p; }
        }
        if( only >= 0 ) { lo = only; hi = only + 1; step = 1; }
        if( prog_mem ) prog_mem[0] = -1;
    }
    uint64_t case_seed(long i) const { return mix64(seed * 0x100000001b3ull + uint64_t(i) * 0x9e3779b97f4a7c15ull + 77); }
    void begin(long i) { cur = i; case_failed = false; if( prog_mem ) { prog_mem[0] = i; prog_mem[1]++; } counters["cases"]++; }
    void count(const char* n, long k = 1) { counters[n] += k; }
    void sig(uint64_t h) { distinct.insert(h); }
    void sample(const std::string& s) { if( samples.size() < 4 ) samples.push_back(s.substr(0, 1500)); }
    // a violation; key identifies what fails (without case specific numbers)
    void fail(const std::string& key, const std::string& detail)
    {   if( capture ) { capture->insert(key); return; }
        nfail++; case_failed = true; long n = ++fails[key];
        if( n <= 3 || verbose ) { printf("FAIL key=%s case=%ld %s\n", key.c_str(), cur, detail.c_str()); fflush(stdout); } }
    static std::string esc(const std::string& s)
    {   std::string r; for(char c : s) { if( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if( c == '\n' ) r += "\\n"; else if( (unsigned char)c < 32 ) r += ' '; else r += c; } return r; }
    int finish()
    {   if( ! out.empty() )
        {   FILE* f = fopen(out.c_str(), "w");
            if( f )
            {   fprintf(f, "{\"counters\":{"); bool first = true;
                for(auto& p : counters) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(p.first).c_str(), p.second); first = false; }
                fprintf(f, "},\"fails\":{"); first = true;
                for(auto& p : fails) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", esc(p.first).c_str(), p.second); first = false; }
                fprintf(f, "},\"samples\":["); first = true;
                for(auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(s).c_str()); first = false; }
                fprintf(f, "],\"distinct\":["); first = true;
                for(auto h : distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 11)); first = false; }
                fprintf(f, "]}\n"); fclose(f);
            }
        }
        if( prog_mem ) prog_mem[2] = 1;
        fflush(stdout);
        return 0;
    }
};
inline Report& rep() { static Report r; return r; }
} // namespace vf
#endif
