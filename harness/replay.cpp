// Native side of the harness interface: replays one input assignment against
// the real code.   replay CASE INPUTFILE
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <unistd.h>
#include <string>
#include "sym.h"

static std::map<std::string, std::string> vals;
static std::map<std::string, int> cnt;

static std::string key(const char* n)
{
    int k = cnt[n]++;
    std::string s = n;
    if (k)
        s += "#" + std::to_string(k);
    return s;
}
static const char* find(const char* n)
{
    auto it = vals.find(key(n));
    return it == vals.end() ? nullptr : it->second.c_str();
}
extern "C"
{
double vp_real(const char* n)
{
    auto p = find(n);
    return p ? strtod(p, nullptr) : 0.5;
}
long vp_int(const char* n, long lo, long hi)
{
    auto p = find(n);
    long v = p ? strtol(p, nullptr, 10) : lo;
    if (v < lo || v > hi)
        vp_assume(false);
    return v;
}
bool vp_bool(const char* n)
{
    auto p = find(n);
    return p && atoi(p);
}
long vp_choice(const char* n, long m)
{
    auto p = find(n);
    return p ? strtol(p, nullptr, 10) : 0;
}
void vp_assume(bool c)
{
    if (!c)
    {
        puts("ASSUME");
        fflush(stdout);
        _exit(77);
    }
}
void vp_axiom(bool) { }
static void bad(const char* id)
{
    printf("FAIL %s\n", id);
    fflush(stdout);
    _exit(3);
}
void vp_check(bool c, const char* id)
{
    printf("check %s\n", id);
    if (!c)
        bad(id);
}
void vp_check_eq(double a, double b, const char* id)
{
    printf("eq %s %.17g %.17g\n", id, a, b);
    double s = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    if (a != b && !(std::isfinite(s) && std::fabs(a - b) <= 1e-6 * s))
        bad(id);
}
void vp_check_le(double a, double b, const char* id)
{
    printf("le %s %.17g %.17g\n", id, a, b);
    double s = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    if (!(a <= b) && !(std::isfinite(s) && a <= b + 1e-7 * s))
        bad(id);
}
bool vp_eq(double a, double b)
{
    double s = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    return a == b || (std::isfinite(s) && std::fabs(a - b) <= 1e-6 * s);
}
void vp_lemma(bool c, const char* id) { vp_check(c, id); }
void vp_fail(const char* id) { bad(id); }
void vp_cover(const char* id) { printf("cover %s\n", id); }
double vp_abstract(double x) { return x; }
void vp_end()
{
    puts("END");
    fflush(stdout);
    _exit(0);
}
}
int main(int argc, char** argv)
{
    if (argc > 2)
    {
        FILE* f = fopen(argv[2], "r");
        char n[256], v[256];
        while (f && fscanf(f, "%255s %255s", n, v) == 2)
            vals[n] = v;
        if (f)
            fclose(f);
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn)
    {
        fprintf(stderr, "no case %s\n", argv[1]);
        return 99;
    }
    fn();
    puts("END");
    fflush(stdout);
    _exit(0);
}
