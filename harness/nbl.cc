// Replays structure / supercell / neighbour-list queries against the C++ classes of /repo.
// One query per input line (numbers only), one JSON reply per output line.
#include <cmath>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "nblist/include/structure.h"
#include "nblist/include/binLinkedList.h"
#include "nblist/include/neighborList.h"
using namespace matersdk;
typedef std::vector<double> VD;

static std::string num(double x) { char b[64]; if (!std::isfinite(x)) return "1e300"; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string arr(const double* p, int n) { std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += ","; s += num(p[i]); } return s + "]"; }
static std::string iarr(const int* p, int n) { std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += ","; s += std::to_string(p[i]); } return s + "]"; }
static std::string rows(const double** p, int n) { std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += ","; s += arr(p[i], 3); } return s + "]"; }

static Structure<double> readStructure(std::istringstream& in, bool ptrs) {
    int n, cart; in >> n >> cart;
    double lat[3][3]; for (auto& r : lat) for (double& x : r) in >> x;
    std::vector<int> z(n); for (int& x : z) in >> x;
    std::vector<std::array<double,3>> xyz(n); for (auto& r : xyz) for (double& x : r) in >> x;
    if (ptrs) {
        double* lp[3] = {lat[0], lat[1], lat[2]};
        std::vector<double*> cp; for (auto& r : xyz) cp.push_back(r.data());
        return Structure<double>(n, lp, z.data(), cp.data(), cart != 0);
    }
    return Structure<double>(n, lat, z.data(), (double(*)[3])xyz.data(), cart != 0);
}

static std::string showStructure(const Structure<double>& s) {
    int n = s.get_num_atoms();
    double* pl = s.get_projected_lengths(); double* ip = s.get_interplanar_distances();
    double** lim = s.get_limit_xyz();
    std::string o = "\"n\":" + std::to_string(n) + ",\"basis\":" + rows(s.get_basis_vectors(), 3) + ",\"z\":" + iarr(s.get_atomic_numbers(), n) +
        ",\"xyz\":" + rows(s.get_cart_coords(), n) + ",\"origin\":" + arr(s.get_pseudo_origin(), 3) +
        ",\"projected\":" + arr(pl, 3) + ",\"planes\":" + arr(ip, 3) + ",\"lim\":[" + arr(lim[0], 2) + "," + arr(lim[1], 2) + "," + arr(lim[2], 2) + "]";
    free(pl); free(ip); for (int i = 0; i < 3; i++) free(lim[i]); free(lim);
    return o;
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string op; in >> op;
        std::string out;
        if (op == "super") {            // super ptrs sx sy sz structure
            int ptrs, sc[3]; in >> ptrs >> sc[0] >> sc[1] >> sc[2];
            Structure<double> s = readStructure(in, ptrs);
            out = "{\"prim\":{" + showStructure(s) + "}";
            Supercell<double> sup(s, sc);
            out += ",\"same\":{" + showStructure(s) + "}";
            out += ",\"super\":{" + showStructure(sup.get_structure()) + "}";
            out += ",\"np\":" + std::to_string(sup.get_prim_num_atoms()) + ",\"ns\":" + std::to_string(sup.get_num_atoms()) +
                   ",\"cell\":" + std::to_string(sup.get_prim_cell_idx()) + ",\"cellxyz\":" + iarr(sup.get_prim_cell_idx_xyz(), 3) +
                   ",\"owned\":" + iarr(sup.get_owned_atom_idxs(), sup.get_prim_num_atoms()) + "}";
        } else if (op == "nl") {        // nl rcut px py pz sort nbin(0|1) bx by bz umax structure
            double rcut, b[3]; int p[3], sort, nb, umax; in >> rcut >> p[0] >> p[1] >> p[2] >> sort >> nb >> b[0] >> b[1] >> b[2] >> umax;
            Structure<double> s = readStructure(in, 0);
            bool pbc[3] = {p[0] != 0, p[1] != 0, p[2] != 0};
            NeighborList<double> nl;
            if (nb) nl = NeighborList<double>(s, rcut, b, pbc, sort != 0);
            else nl = NeighborList<double>(s, rcut, pbc, sort != 0);
            int n = nl.get_num_center_atoms();
            const Supercell<double>& sup = nl.get_binLinkedList().get_supercell();
            const int* owned = sup.get_owned_atom_idxs();
            const double** xyz = sup.get_structure().get_cart_coords();
            const int* zs = sup.get_structure().get_atomic_numbers();
            out = "{\"n\":" + std::to_string(n) + ",\"rows\":[";
            std::vector<int> kinds;
            for (int i = 0; i < n; i++) {
                if (i) out += ",";
                out += "[";
                const std::vector<int>& row = nl.get_neighbor_lists()[i];
                for (size_t k = 0; k < row.size(); k++) {
                    if (k) out += ",";
                    double d[3]; for (int a = 0; a < 3; a++) d[a] = xyz[row[k]][a] - xyz[owned[i]][a];
                    out += "[" + std::to_string(row[k] % n) + "," + std::to_string(zs[row[k]]) + "," + num(d[0]) + "," + num(d[1]) + "," + num(d[2]) + "]";
                }
                out += "]";
                bool seen = false; for (int x : kinds) seen = seen || x == zs[i];
                if (!seen) kinds.push_back(zs[i]);
            }
            kinds.push_back(99);
            out += "],\"max\":" + std::to_string(nl.get_max_num_neigh_atoms()) + ",\"pairs\":[";
            bool first = true;
            for (int a : kinds) for (int c : kinds) {
                if (!first) out += ","; first = false;
                out += "[" + std::to_string(a) + "," + std::to_string(c) + "," + std::to_string(nl.get_max_num_neigh_atoms_ssss(a, c)) + "]";
            }
            out += "]";
            // the flat table, in buffers of exactly the promised size
            int inum, nghost;
            std::vector<int> il(n), nn(n), fn((size_t)n * umax), ty(n); std::vector<double> rel((size_t)n * umax * 3);
            nl.find_info4mlff(inum, il.data(), nn.data(), fn.data(), rel.data(), ty.data(), nghost, umax);
            out += ",\"flat\":{\"inum\":" + std::to_string(inum) + ",\"ilist\":" + iarr(il.data(), n) + ",\"numneigh\":" + iarr(nn.data(), n) +
                   ",\"types\":" + iarr(ty.data(), n) + ",\"firstneigh\":" + iarr(fn.data(), n * umax) + ",\"rel\":" + arr(rel.data(), n * umax * 3) + "}}";
        } else { fprintf(stderr, "unknown op %s\n", op.c_str()); return 9; }
        std::cout << out << std::endl;
    }
    return 0;
}
