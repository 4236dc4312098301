// Sessions on the vectors, aligned arrays and tables of /repo/source/core.  "start nv na type", then one operation per line -> "VF {...}" with the whole state.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#include "core/include/vecx.h"
#include "core/include/vec3Operation.h"
#include "core/include/AlignedArray.h"
#include "core/include/arrayUtils.h"
using namespace matersdk;
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return std::isfinite(x) ? b : "1e99"; }
template <class F> static std::string list(size_t n, F f) { std::string o = "["; for (size_t i = 0; i < n; i++) o += (i ? "," : "") + f(i); return o + "]"; }
struct Session { virtual ~Session() {} virtual std::string step(std::istringstream& in) = 0; };
template <class T> struct S : Session {
    std::vector<Vec3> v; std::vector<AlignedArray<T>>* a; std::vector<int> dim; T*** t3 = 0; T**** t4 = 0; T***** t5 = 0; size_t before = 0;
    S(int nv, int na) : v(nv) { a = new std::vector<AlignedArray<T>>(na); }
    ~S() { delete a; if (!dim.empty()) drop(); }
    void drop() { if (dim.size() == 3) arrayUtils::free3dArray(t3, dim[0], dim[1]); else if (dim.size() == 4) arrayUtils::free4dArray(t4, dim[0], dim[1], dim[2]); else arrayUtils::free5dArray(t5, dim[0], dim[1], dim[2], dim[3]); dim.clear(); }
    T& cell(const std::vector<int>& p) { return dim.size() == 3 ? t3[p[0]][p[1]][p[2]] : dim.size() == 4 ? t4[p[0]][p[1]][p[2]][p[3]] : t5[p[0]][p[1]][p[2]][p[3]][p[4]]; }
    std::string table() {
        size_t n = dim.empty() ? 0 : 1; for (int d : dim) n *= d;
        return list(n, [&](size_t m) { std::vector<int> p(dim.size()); for (int i = (int)dim.size() - 1; i >= 0; i--) { p[i] = m % dim[i]; m /= dim[i]; } return num((double)cell(p)); });
    }
    std::string step(std::istringstream& in) override {
        std::string op, extra; in >> op; int i, j, k; double n;
        auto plain = [&](int r, double* o) { for (int c = 0; c < 3; c++) o[c] = v[r][c]; };
        if (op == "set") { double x, y, z; in >> i >> x >> y >> z; v[i] = Vec3(x, y, z); }
        else if (op == "put") { in >> i >> k >> n; v[i][k] = n; }
        else if (op == "plus") { in >> i >> j; v[i] = +v[j]; }
        else if (op == "neg") { in >> i >> j; v[i] = -v[j]; }
        else if (op == "add") { in >> i >> j >> k; v[i] = v[j] + v[k]; }
        else if (op == "sub") { in >> i >> j >> k; v[i] = v[j] - v[k]; }
        else if (op == "cross") { in >> i >> j >> k; v[i] = v[j].cross(v[k]); }
        else if (op == "addto") { in >> i >> j >> k; Vec3& r = (v[i] += v[k]); if (&r != &v[i]) abort(); }
        else if (op == "subto") { in >> i >> j >> k; Vec3& r = (v[i] -= v[k]); if (&r != &v[i]) abort(); }
        else if (op == "mul") { in >> i >> j >> n; v[i] = v[j] * n; }
        else if (op == "mulleft") { in >> i >> j >> n; v[i] = n * v[j]; }
        else if (op == "multo") { in >> i >> j >> n; Vec3& r = (v[i] *= n); if (&r != &v[i]) abort(); }
        else if (op == "div") { in >> i >> j >> n; v[i] = v[j] / n; }
        else if (op == "divto") { in >> i >> j >> n; Vec3& r = (v[i] /= n); if (&r != &v[i]) abort(); }
        else if (op == "dot") { in >> i >> j; double x[3], y[3]; plain(i, x); plain(j, y); extra = ",\"out\":[" + num(v[i].dot(v[j])) + "," + num(vec3Operation::dot<double>(x, y)) + "]"; }
        else if (op == "same") { in >> i >> j; extra = std::string(",\"out\":[") + (v[i] == v[j] ? "1," : "0,") + (v[i] != v[j] ? "1]" : "0]"); }
        else if (op == "plain") {
            in >> i >> j; double x[3], y[3]; plain(i, x); plain(j, y); double* c = vec3Operation::cross<double>(x, y); double* u = vec3Operation::normalize<double>(x); double l = vec3Operation::norm<double>(x);
            extra = ",\"out\":[" + num(c[0]) + "," + num(c[1]) + "," + num(c[2]) + "," + num(l) + "],\"unit\":[" + num(u[0]) + "," + num(u[1]) + "," + num(u[2]) + "]"; free(c); free(u);
        }
        else if (op == "power") {
            in >> i >> k; double x[3]; plain(i, x); double** p = vec3Operation::RecursionOuterProduct<double>(k, x); int rows = 1; for (int q = 1; q < k; q++) rows *= 3;
            extra = ",\"out\":" + list(rows * 3, [&](size_t m) { return num(p[m / 3][m % 3]); }); for (int q = 0; q < rows; q++) free(p[q]); free(p);
        }
        else if (op == "text") { in >> i; std::ostringstream o; o << v[i]; extra = ",\"txt\":\"" + o.str() + "\""; }
        else if (op == "make") { in >> i >> k; AlignedArray<T>* p = &(*a)[i]; p->~AlignedArray<T>(); new (p) AlignedArray<T>(k); }
        else if (op == "resize") { in >> i >> k; (*a)[i].resize(k); }
        else if (op == "write") { in >> i >> k >> n; (*a)[i][k] = (T)n; }
        else if (op == "copy") { in >> i >> j; if (i != j) { AlignedArray<T>* p = &(*a)[i]; p->~AlignedArray<T>(); new (p) AlignedArray<T>((*a)[j]); } }
        else if (op == "assign") { in >> i >> j; (*a)[i] = (*a)[j]; }
        else if (op == "grow") { a->reserve(a->capacity() + 1); }
        else if (op == "table") {
            int m, z; in >> m; dim.resize(m); for (int& d : dim) in >> d; in >> z; before = __sanitizer_get_current_allocated_bytes();
            if (m == 3) t3 = arrayUtils::allocate3dArray<T>(dim[0], dim[1], dim[2], (bool)z);
            else if (m == 4) t4 = arrayUtils::allocate4dArray<T>(dim[0], dim[1], dim[2], dim[3], (bool)z);
            else t5 = arrayUtils::allocate5dArray<T>(dim[0], dim[1], dim[2], dim[3], dim[4], (bool)z);
            before = __sanitizer_get_current_allocated_bytes() - before;
        }
        else if (op == "fill") { std::vector<int> p(dim.size()); for (int& d : p) in >> d; in >> n; cell(p) = (T)n; }
        else if (op == "free") { size_t x = __sanitizer_get_current_allocated_bytes(); drop(); x -= __sanitizer_get_current_allocated_bytes(); extra = ",\"bytes\":" + std::to_string((long long)before - (long long)x); }
        bool al = true; for (auto& y : *a) if (y.size()) al = al && ((uintptr_t)&y[0] & 15) == 0;
        return "{\"v\":" + list(v.size(), [&](size_t m) { const Vec3& y = v[m]; return "[" + num(y[0]) + "," + num(y[1]) + "," + num(y[2]) + "]"; }) +
               ",\"a\":" + list(a->size(), [&](size_t m) { const AlignedArray<T>& y = (*a)[m]; return list(y.size(), [&](size_t q) { return num((double)y[q]); }); }) +
               ",\"aligned\":" + (al ? "true" : "false") + ",\"t\":" + table() + extra + "}";
    }
};
int main() {
    std::string line; std::unique_ptr<Session> s;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        if (line.rfind("start ", 0) == 0) { std::string w, ty; int nv, na; in >> w >> nv >> na >> ty; s.reset(); if (ty == "f") s.reset(new S<float>(nv, na)); else s.reset(new S<double>(nv, na)); std::cout << "VF {}" << std::endl; continue; }
        if (line == "end") { s.reset(); std::cout << "VF {}" << std::endl; continue; }
        std::cout << "VF " << s->step(in) << std::endl;
    }
}
