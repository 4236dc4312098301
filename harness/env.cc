// Replays neighbour tables and crystals against the DeepPot-SE classes of /repo. One query per line, one JSON reply per line.
#include <cmath>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include "descriptor/deepmd/include/se.h"
#include "descriptor/deepmd/include/envMatrix.h"
#include "descriptor/deepmd/include/se4pw.h"
using namespace matersdk;
using namespace matersdk::deepPotSE;

static std::string num(double x) { char b[64]; if (!std::isfinite(x)) return "1e300"; snprintf(b, sizeof b, "%.10g", x); return b; }
template <class T> static std::string flat(const T* p, size_t n) { std::string s = "["; for (size_t i = 0; i < n; i++) { if (i) s += ","; s += num((double)p[i]); } return s + "]"; }
template <class T> static std::string flat(const std::vector<T>& v) { return flat(v.data(), v.size()); }
template <class T> static std::string flat3(T*** a, int n, int m, int k) { std::vector<double> v; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int l = 0; l < k; l++) v.push_back(a[i][j][l]); return flat(v); }
template <class T> static std::string flat4(T**** a, int n, int m) { std::vector<double> v; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < 4; k++) for (int l = 0; l < 3; l++) v.push_back(a[i][j][k][l]); return flat(v); }

struct Tab { int n, nc, nt; double g, rs, rc; std::vector<std::array<double,3>> x; std::vector<int> t, c, sel, co, no, z; std::vector<std::vector<int>> nb; };
static Tab readTab(std::istringstream& in) {
    Tab q; in >> q.n >> q.nc >> q.nt >> q.g >> q.rs >> q.rc;
    q.x.resize(q.n); for (auto& p : q.x) for (double& v : p) { in >> v; }
    q.t.resize(q.n); for (int& v : q.t) in >> v;
    q.c.resize(q.nc); for (int& v : q.c) in >> v;
    q.nb.resize(q.nc); for (auto& l : q.nb) { int m; in >> m; l.resize(m); for (int& v : l) in >> v; }
    q.sel.resize(q.nt); for (int& v : q.sel) in >> v;
    int k; in >> k; q.co.resize(k); for (int& v : q.co) in >> v;
    in >> k; q.no.resize(k); for (int& v : q.no) in >> v;
    q.z.resize(q.nt); for (int& v : q.z) in >> v;
    return q;
}

template <class T> static std::string runTab(const Tab& q) {
    int w = 0; for (int s : q.sel) w += s;
    std::vector<int> numn, first(q.nc * w, 0), ty = q.t, sel = q.sel, il = q.c;
    std::vector<T> rel(q.nc * w * 3, 0), x(q.n * 3);
    for (int i = 0; i < q.n; i++) for (int k = 0; k < 3; k++) x[i*3+k] = (T)q.x[i][k];
    for (int i = 0; i < q.nc; i++) {
        numn.push_back(q.nb[i].size());
        for (size_t j = 0; j < q.nb[i].size(); j++) {
            first[i*w+j] = q.nb[i][j];
            for (int k = 0; k < 3; k++) rel[(i*w+j)*3+k] = (T)(q.x[q.nb[i][j]][k] - q.x[q.c[i]][k]);
        }
    }
    std::string o;
    {
        std::vector<T> r(q.nc*w*4, 7), d(q.nc*w*12, 7);
        EnvMatrix<T>::find_value_deriv(r.data(), d.data(), q.nc, il.data(), numn.data(), first.data(), rel.data(), ty.data(), q.nt, sel.data(), (T)q.rc, (T)q.rs);
        o += "{\"env\":{\"r\":" + flat(r) + ",\"d\":" + flat(d) + "}";
    }
    {
        std::vector<T> r(q.nc*w*4, 7), d(q.nc*w*12, 7), v(q.nc*w*3, 7); std::vector<int> p(q.nc*w, 7);
        Se4pw<T>::generate(r.data(), d.data(), v.data(), q.nc, il.data(), numn.data(), first.data(), x.data(), ty.data(), q.nt, sel.data(), (T)q.rc, (T)q.rs);
        Se4pw<T>::get_prim_indices_from_matersdk(p.data(), q.nc, il.data(), numn.data(), first.data(), ty.data(), q.nt, sel.data());
        o += ",\"se4\":{\"r\":" + flat(r) + ",\"d\":" + flat(d) + ",\"v\":" + flat(v) + ",\"p\":" + flat(p) + "}";
    }
    // LAMMPS style: species numbers, arrays of rows
    std::vector<int> zz; for (int v : q.t) zz.push_back(q.z[v]);
    std::vector<T*> xp; for (int i = 0; i < q.n; i++) xp.push_back(&x[i*3]);
    std::vector<std::vector<int>> nb = q.nb; std::vector<int*> fp; for (auto& l : nb) fp.push_back(l.data());
    std::vector<int> cz, nz, ns; for (int v : q.co) cz.push_back(q.z[v]); for (int v : q.no) { nz.push_back(q.z[v]); ns.push_back(q.sel[v]); }
    int rows = 0, cols = 0; for (int v : q.co) for (int c : q.c) rows += (q.t[c] == v); for (int v : ns) cols += v;
    {
        T*** r = TildeR<T>::generate(q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz.size(), cz.data(), nz.size(), nz.data(), ns.data(), (T)q.rc, (T)q.rs);
        T**** d = TildeR<T>::deriv(q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz.size(), cz.data(), nz.size(), nz.data(), ns.data(), (T)q.rc, (T)q.rs);
        o += ",\"tr\":{\"r\":" + flat3(r, rows, cols, 4) + ",\"d\":" + flat4(d, rows, cols) + "}";
        arrayUtils::free3dArray(r, rows, cols); arrayUtils::free4dArray(d, rows, cols, 4);
    }
    {
        T*** r = arrayUtils::allocate3dArray<T>(rows, cols, 4, true); T**** d = arrayUtils::allocate4dArray<T>(rows, cols, 4, 3, true);
        TildeR<T>::generate(r, q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz.size(), cz.data(), nz.size(), nz.data(), ns.data(), (T)q.rc, (T)q.rs);
        TildeR<T>::deriv(d, q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz.size(), cz.data(), nz.size(), nz.data(), ns.data(), (T)q.rc, (T)q.rs);
        o += ",\"tr2\":{\"r\":" + flat3(r, rows, cols, 4) + ",\"d\":" + flat4(d, rows, cols) + "}";
        arrayUtils::free3dArray(r, rows, cols); arrayUtils::free4dArray(d, rows, cols, 4);
    }
    {
        int pr = 0; for (int c : q.c) pr += (q.t[c] == q.co[0]);
        T*** r = PairTildeR<T>::generate(q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz[0], nz[0], ns[0], (T)q.rc, (T)q.rs);
        T**** d = PairTildeR<T>::deriv(q.nc, il.data(), numn.data(), fp.data(), xp.data(), zz.data(), cz[0], nz[0], ns[0], (T)q.rc, (T)q.rs);
        o += ",\"pair\":{\"r\":" + flat3(r, pr, ns[0], 4) + ",\"d\":" + flat4(d, pr, ns[0]) + "}}";
        arrayUtils::free3dArray(r, pr, ns[0]); arrayUtils::free4dArray(d, pr, ns[0], 4);
    }
    return o;
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op, out; in >> op;
        if (op == "tab") { Tab q = readTab(in); out = "{\"f64\":" + runTab<double>(q) + ",\"f32\":" + runTab<float>(q) + "}"; }
        else if (op == "cls") {      // cls rcut rs px py pz auto nc cz.. nn nz.. sel.. n lat z xyz
            double rc, rs; int p[3], autosel, k; in >> rc >> rs >> p[0] >> p[1] >> p[2] >> autosel;
            bool pbc[3] = {p[0] != 0, p[1] != 0, p[2] != 0};
            in >> k; std::vector<int> cz(k); for (int& v : cz) in >> v;
            in >> k; std::vector<int> nz(k), sel(k); for (int& v : nz) in >> v; for (int& v : sel) in >> v;
            int n; in >> n; double lat[3][3]; for (auto& r : lat) for (double& v : r) in >> v;
            std::vector<int> z(n); for (int& v : z) in >> v;
            std::vector<std::array<double,3>> xyz(n); for (auto& r : xyz) for (double& v : r) in >> v;
            Structure<double> s(n, lat, z.data(), (double(*)[3])xyz.data(), true);
            TildeR<double> t = autosel ? TildeR<double>(s, rc, pbc, true, (int)cz.size(), cz.data(), (int)nz.size(), nz.data(), rs)
                                       : TildeR<double>(s, rc, pbc, true, (int)cz.size(), cz.data(), (int)nz.size(), nz.data(), sel.data(), rs);
            int R = t.get_num_center_atoms(), C = t.get_num_neigh_atoms();
            double*** r = t.generate(); double**** d = t.deriv();
            PairTildeR<double> pt = autosel ? PairTildeR<double>(s, rc, pbc, true, cz[0], nz[0], rs) : PairTildeR<double>(s, rc, pbc, true, cz[0], nz[0], sel[0], rs);
            int PR = pt.get_num_center_atoms(), PC = pt.get_num_neigh_atoms();
            double*** pr = pt.generate(); double**** pd = pt.deriv();
            out = "{\"rows\":" + std::to_string(R) + ",\"cols\":" + std::to_string(C) + ",\"r\":" + flat3(r, R, C, 4) + ",\"d\":" + flat4(d, R, C) +
                  ",\"prows\":" + std::to_string(PR) + ",\"pcols\":" + std::to_string(PC) + ",\"pr\":" + flat3(pr, PR, PC, 4) + ",\"pd\":" + flat4(pd, PR, PC) + "}";
            arrayUtils::free3dArray(r, R, C); arrayUtils::free4dArray(d, R, C, 4); arrayUtils::free3dArray(pr, PR, PC); arrayUtils::free4dArray(pd, PR, PC, 4);
        }
        puts(("VF " + out).c_str()); fflush(stdout);
    }
}
