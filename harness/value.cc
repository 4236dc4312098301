// Value semantics of the C++ classes of /repo: histories of construct / copy / assign / move / mutate / drop over
// a few slots; after every operation a digest of each live slot is reported.
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
// bytes held; blocks asked for with a size of zero count as one byte in the sanitizer, and as nothing here
static long g_held = 0;
static void onMalloc(const volatile void*, size_t n) { if (n > 1) g_held += (long)n; }
static void onFree(const volatile void* p) { if (p) { size_t n = __sanitizer_get_allocated_size(p); if (n > 1) g_held -= (long)n; } }
#include "nblist/include/structure.h"
#include "nblist/include/binLinkedList.h"
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
#include "descriptor/mtp/include/mtpLevel.h"
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtpr/include/mtpParam.h"
using namespace matersdk;

struct Dump {
    std::string s;
    void d(double x) { char b[64]; snprintf(b, sizeof b, "%.12g,", x); s += b; }
    void i(long x) { s += std::to_string(x) + ";"; }
    void ds(const double* p, int n) { for (int k = 0; k < n; k++) d(p[k]); }
    void is(const int* p, int n) { for (int k = 0; k < n; k++) i(p[k]); }
    int hash() const { unsigned h = 2166136261u; for (unsigned char c : s) { h ^= c; h *= 16777619u; } return (int)((h ^ (h >> 28)) & 0x0fffffff); }
};
static std::string capture(const std::function<void()>& f) {
    fflush(stdout);
    int old = dup(1); FILE* t = tmpfile(); dup2(fileno(t), 1);
    f(); fflush(stdout); dup2(old, 1); close(old);
    rewind(t); std::string s; int c; while ((c = fgetc(t)) != EOF) s += (char)c; fclose(t); return s;
}

static Structure<double> someStructure(int p) {
    if (p == 1) { double l[3][3] = {{3, 0, 0}, {0, 4, 0}, {0, 0, 5}}; int z[1] = {8}; double x[1][3] = {{.25, .5, .125}}; return Structure<double>(1, l, z, x, false); }
    double l[3][3] = {{4, 1, 0}, {-1, 5, 1}, {0, 1, 6}}; int z[3] = {3, 8, 3}; double x[3][3] = {{0, 0, 0}, {.5, .25, .5}, {.75, .5, .125}};
    Structure<double> sized(2);                                     // room for two atoms, taken over by three
    sized = Structure<double>(3, l, z, x, false);
    return sized;
}
static bool PBC[3] = {true, true, true}, SLAB[3] = {true, false, true};
static NeighborList<double> someList(int p) { return p == 1 ? NeighborList<double>(someStructure(1), 3.6, PBC, true) : NeighborList<double>(someStructure(2), 4.3, SLAB, false); }

static void dump(Dump& o, const Structure<double>& x) {
    o.i(x.get_num_atoms());
    if (x.get_num_atoms() == 0) { o.i(x.get_basis_vectors() == nullptr); o.i(x.get_cart_coords() == nullptr); return; }
    for (int k = 0; k < 3; k++) o.ds(x.get_basis_vectors()[k], 3);
    o.is(x.get_atomic_numbers(), x.get_num_atoms());
    for (int k = 0; k < x.get_num_atoms(); k++) o.ds(x.get_cart_coords()[k], 3);
    o.ds(x.get_pseudo_origin(), 3);
}
static void dump(Dump& o, const Supercell<double>& x) {
    dump(o, x.get_structure()); o.is(x.get_scaling_matrix(), 3); o.is(x.get_prim_cell_idx_xyz(), 3); o.i(x.get_prim_cell_idx());
    o.i(x.get_prim_num_atoms()); o.i(x.get_num_atoms()); if (x.get_num_atoms()) o.is(x.get_owned_atom_idxs(), x.get_prim_num_atoms());
}
static void dump(Dump& o, const BinLinkedList<double>& x) {
    dump(o, x.get_supercell()); o.ds(x.get_bin_size_xyz(), 3); o.is(x.get_num_bin_xyz(), 3); o.ds(x.get_min_limit_xyz(), 3);
    for (int k = 0; k < x.get_supercell().get_prim_num_atoms(); k++) { o.i(x.get_bin_idx(k)); for (int a : x.get_neigh_atoms(k)) o.i(a); o.s += "|"; }
}
static void dump(Dump& o, const NeighborList<double>& x) {
    dump(o, x.get_binLinkedList()); o.i(x.get_num_center_atoms()); o.d(x.get_rcut());
    for (int k = 0; k < x.get_num_center_atoms(); k++) { for (int a : x.get_neighbor_lists()[k]) o.i(a); o.s += "|"; }
}

template <class T> struct Ops;
template <> struct Ops<Structure<double>> { static constexpr bool mut = true; static Structure<double>* make(int p) { return new Structure<double>(someStructure(p)); }
    static void mutate(Structure<double>& x) { int s[3] = {2, 1, 3}; x.make_supercell(s); } static void show(Dump& o, const Structure<double>& x) { dump(o, x); } };
template <> struct Ops<BasicStructureInfo<double>> { static constexpr bool mut = false; typedef BasicStructureInfo<double> T; static T* make(int p) { return new T(someStructure(p)); }
    static void mutate(T&) {} static void show(Dump& o, const T& x) { o.s += capture([&] { x.show(); }); } };
template <> struct Ops<Supercell<double>> { static constexpr bool mut = false; typedef Supercell<double> T; static T* make(int p) { int s[3] = {p == 1 ? 3 : 4, p == 1 ? 5 : 3, p == 1 ? 7 : 5}; return new T(someStructure(p), s); }
    static void mutate(T&) {} static void show(Dump& o, const T& x) { dump(o, x); } };
template <> struct Ops<BinLinkedList<double>> { static constexpr bool mut = false; typedef BinLinkedList<double> T;
    static T* make(int p) { double b[3] = {2, 2.5, 3}; return p == 1 ? new T(someStructure(1), 3.6, PBC) : new T(someStructure(2), 4.3, b, SLAB); }
    static void mutate(T&) {} static void show(Dump& o, const T& x) { dump(o, x); } };
template <> struct Ops<NeighborList<double>> { static constexpr bool mut = false; typedef NeighborList<double> T; static T* make(int p) { return new T(someList(p)); }
    static void mutate(T&) {} static void show(Dump& o, const T& x) { dump(o, x); } };
typedef matersdk::deepPotSE::PairTildeR<double> PTR; typedef matersdk::deepPotSE::TildeR<double> TR;
static void freeGen(double*** g, int a, int b) { for (int i = 0; i < a; i++) { for (int j = 0; j < b; j++) free(g[i][j]); free(g[i]); } free(g); }
template <> struct Ops<PTR> { static constexpr bool mut = false; static PTR* make(int p) { auto nl = someList(p); return p == 1 ? new PTR(nl, 8, 8, 2.0) : new PTR(nl, 3, 8, 2.5); }
    static void mutate(PTR&) {} static void show(Dump& o, const PTR& x) { o.s += capture([&] { x.show(); }); int a = x.get_num_center_atoms(), b = x.get_num_neigh_atoms(); o.i(a); o.i(b); if (!a) return;
        double*** g = x.generate(); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) o.ds(g[i][j], 4); freeGen(g, a, b); } };
template <> struct Ops<TR> { static constexpr bool mut = false; static TR* make(int p) { auto nl = someList(p); int z1[1] = {8}, z2[2] = {3, 8};
        return p == 1 ? new TR(nl, 1, z1, 1, z1, 2.0) : new TR(nl, 2, z2, 2, z2, 2.5); }
    static void mutate(TR&) {} static void show(Dump& o, const TR& x) { o.s += capture([&] { x.show(); }); int a = x.get_num_center_atoms(), b = x.get_num_neigh_atoms(); o.i(a); o.i(b); if (!a) return;
        double*** g = x.generate(); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) o.ds(g[i][j], 4); freeGen(g, a, b); } };
typedef mtp::MtpSwitchFunc1<double> SF1; typedef mtp::MtpSwitchFunc2<double> SF2; typedef mtp::ChebyshevPoly<double> CP; typedef mtp::MtpQ<double> MQ;
template <> struct Ops<SF1> { static constexpr bool mut = false; static SF1* make(int p) { return new SF1(p + 4.5, 0.5 * p); } static void mutate(SF1&) {}
    static void show(Dump& o, const SF1& x) { o.d(x.get_result(2.25)); o.d(x.get_deriv2r()); } };
template <> struct Ops<SF2> { static constexpr bool mut = false; static SF2* make(int p) { return new SF2(p + 4.5, 0.5 * p); } static void mutate(SF2&) {}
    static void show(Dump& o, const SF2& x) { o.d(x.get_result(2.25)); o.d(x.get_deriv2r(2.25)); } };
template <> struct Ops<CP> { static constexpr bool mut = true; static CP* make(int p) { return new CP(2 + 2 * p, p + 4.5, 0.5 * p); } static void mutate(CP& x) { x.build(2.25); }
    static void show(Dump& o, const CP& x) { o.i(x.size()); if (x.size()) { o.ds(x.get_result(), x.size()); o.ds(x.get_deriv2xi(), x.size()); o.ds(x.get_deriv2r(), x.size()); } } };
template <> struct Ops<MQ> { static constexpr bool mut = true; static MQ* make(int p) { return new MQ(2 + 2 * p, p + 4.5, 0.5 * p); } static void mutate(MQ& x) { x.build(2.25); }
    static void show(Dump& o, const MQ& x) { o.i(x.size()); if (x.size()) { o.ds(x.get_result(), x.size()); o.ds(x.get_deriv2r(), x.size()); } } };
typedef mtpr::RB_Chebyshev<double> RB; typedef mtpr::RQ_Chebyshev<double> RQ;
template <> struct Ops<RB> { static constexpr bool mut = true; static RB* make(int p) { return new RB(2 + 2 * p, p + 4.5, 0.5 * p); } static void mutate(RB& x) { x.build(2.25); }
    static void show(Dump& o, const RB& x) { o.i(x.size()); o.d(x.rmax()); o.d(x.rmin()); if (x.size()) { o.ds(x.vals(), x.size()); o.ds(x.ders2uu(), x.size()); o.ds(x.ders2r(), x.size()); } } };
template <> struct Ops<RQ> { static constexpr bool mut = true; static RQ* make(int p) { return new RQ(2 + 2 * p, p + 4.5, 0.5 * p); } static void mutate(RQ& x) { x.build(2.25); }
    static void show(Dump& o, const RQ& x) { o.i(x.size()); o.d(x.rmax()); o.d(x.rmin()); if (x.size()) { o.ds(x.vals(), x.size()); o.ds(x.ders2r(), x.size()); } } };
static std::string PARAM[3];
template <> struct Ops<mtpr::MtpParam> { typedef mtpr::MtpParam T; static constexpr bool mut = false; static T* make(int p) { return new T(PARAM[p]); } static void mutate(T&) {}
    static void show(Dump& o, const T& x) { o.i(x.alpha_moments_count()); o.i(x.alpha_index_basic_count()); o.i(x.alpha_index_times_count()); o.i(x.alpha_scalar_moments());
        for (int k = 0; k < x.alpha_index_basic_count(); k++) o.is(x.alpha_index_basic()[k], 4); for (int k = 0; k < x.alpha_index_times_count(); k++) o.is(x.alpha_index_times()[k], 4);
        if (x.alpha_scalar_moments()) o.is(x.alpha_moment_mapping(), x.alpha_scalar_moments()); } };
template <> struct Ops<mtp::MtpMCoeffPair> { typedef mtp::MtpMCoeffPair T; static constexpr bool mut = false; static T* make(int p) { return p == 1 ? new T(1, 3) : new T(std::pair<int, int>(0, 2)); } static void mutate(T&) {}
    static void show(Dump& o, const T& x) { o.i(x.coeff_pair().first); o.i(x.coeff_pair().second); if (x.coeff_pair().first + x.coeff_pair().second) o.i(x.level()); } };
template <> struct Ops<mtp::MtpMCoeffPairCombs> { typedef mtp::MtpMCoeffPairCombs T; static constexpr bool mut = false; static T* make(int p) { return new T(4 + 4 * p); } static void mutate(T&) {}
    static void show(Dump& o, const T& x) { o.i(x.max_level()); o.i(x.size()); for (auto& c : x.coeff_pair_combs()) { for (auto& y : c) { o.i(y.coeff_pair().first); o.i(y.coeff_pair().second); o.i(y.level()); } o.s += "|"; } } };

template <class T> int digest(const T& x) { Dump o; Ops<T>::show(o, x); return o.hash(); }
template <class T> int ref(int p, int m) { std::unique_ptr<T> x(p ? Ops<T>::make(p) : new T()); if (p && m && Ops<T>::mut) Ops<T>::mutate(*x); return digest(*x); }

template <class T> std::string play(std::istringstream& in) {
    std::vector<std::unique_ptr<T>> s(3); std::vector<int> gone(3, 0);
    std::string out = "{\"refs\":[";
    for (int p = 0; p < 3; p++) { out += (p ? ",[" : "["); out += std::to_string(ref<T>(p, 0)) + "," + std::to_string(ref<T>(p, 1)) + "]"; }
    out += "],\"obs\":[";
    int n; in >> n;
    for (int k = 0; k < n; k++) {
        std::string op; int a, b; in >> op >> a >> b; a--; b--;
        bool self = true;
        if (op == "new") { s[a].reset(Ops<T>::make(b + 1)); gone[a] = 0; }
        else if (op == "default") { s[a].reset(new T()); gone[a] = 0; }
        else if (op == "copynew") { s[a].reset(new T(*s[b])); gone[a] = 0; }
        else if (op == "movenew") { s[a].reset(new T(std::move(*s[b]))); gone[a] = 0; gone[b] = 1; }
        else if (op == "assign") { T& r = (*s[a] = *s[b]); self = &r == s[a].get(); gone[a] = 0; }
        else if (op == "moveassign") { T& r = (*s[a] = std::move(*s[b])); self = &r == s[a].get(); if (a != b) { gone[a] = 0; gone[b] = 1; } }
        else if (op == "mutate") Ops<T>::mutate(*s[a]);
        else if (op == "drop") { s[a].reset(); gone[a] = 0; }
        else abort();
        out += std::string(k ? "," : "") + "[" + (self ? "1" : "0");
        for (int i = 0; i < 3; i++) out += "," + std::to_string(s[i] && !gone[i] ? digest(*s[i]) : -1);
        out += "]";
    }
    return out + "]}";
}

static bool playAny(const std::string& line, std::string& o) {
    std::istringstream in(line); std::string c; in >> c;
    if (c == "Structure") o = play<Structure<double>>(in);
    else if (c == "BasicStructureInfo") o = play<BasicStructureInfo<double>>(in);
    else if (c == "Supercell") o = play<Supercell<double>>(in);
    else if (c == "BinLinkedList") o = play<BinLinkedList<double>>(in);
    else if (c == "NeighborList") o = play<NeighborList<double>>(in);
    else if (c == "PairTildeR") o = play<PTR>(in);
    else if (c == "TildeR") o = play<TR>(in);
    else if (c == "MtpSwitchFunc1") o = play<SF1>(in);
    else if (c == "MtpSwitchFunc2") o = play<SF2>(in);
    else if (c == "ChebyshevPoly") o = play<CP>(in);
    else if (c == "MtpQ") o = play<MQ>(in);
    else if (c == "RB_Chebyshev") o = play<RB>(in);
    else if (c == "RQ_Chebyshev") o = play<RQ>(in);
    else if (c == "MtpParam") o = play<mtpr::MtpParam>(in);
    else if (c == "MtpMCoeffPair") o = play<mtp::MtpMCoeffPair>(in);
    else if (c == "MtpMCoeffPairCombs") o = play<mtp::MtpMCoeffPairCombs>(in);
    else return false;
    return true;
}

int main(int argc, char** argv) {
    PARAM[1] = argv[1]; PARAM[2] = argv[2];
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string o;
        if (!playAny(line, o)) return 9;
        { std::string again; playAny(line, again); }                  // every buffer of the library is there now
        long before = g_held;
        { std::string again; playAny(line, again); }                  // all its objects are gone at the end
        long more = g_held - before;
        o.insert(o.size() - 1, ",\"left\":" + std::to_string(more));
        std::cout << o << std::endl;
    }
    return 0;
}
