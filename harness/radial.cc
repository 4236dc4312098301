// Radial functions of /repo: one object per line, built for one distance after the other; "<kind> size rc rs n r..." -> JSON.
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtpr/include/basis.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
using namespace matersdk;
template <class T> static void list(std::ostringstream& o, const char* name, const T* a, int n, bool last = false) {
    o << "\"" << name << "\":["; for (int i = 0; i < n; i++) { char b[40]; snprintf(b, 40, "%.17g", (double)a[i]); o << (i ? "," : "") << b; } o << (last ? "]" : "],");
}
template <class T> static std::string mtpRun(int n, T rc, T rs, const std::vector<double>& r) {
    mtp::ChebyshevPoly<T> c(n, rc, rs); mtp::MtpQ<T> q(n, rc, rs); mtp::MtpSwitchFunc2<T> s(rc, rs); std::ostringstream o; o << "[";
    for (size_t i = 0; i < r.size(); i++) {
        c.build((T)r[i]); q.build((T)r[i]); T sv[2] = {s.get_result((T)r[i]), s.get_deriv2r((T)r[i])};
        o << (i ? ",{" : "{"); list(o, "t", c.get_result(), c.size()); list(o, "tx", c.get_deriv2xi(), c.size()); list(o, "tr", c.get_deriv2r(), c.size());
        list(o, "q", q.get_result(), q.size()); list(o, "qr", q.get_deriv2r(), q.size()); list(o, "s", sv, 2, true); o << "}";
    }
    return o.str() + "]";
}
template <class T> static std::string mtprRun(int n, T rc, T rs, const std::vector<double>& r) {
    mtpr::RB_Chebyshev<T> c(n, rc, rs); mtpr::RQ_Chebyshev<T> q(n, rc, rs); mtpr::SwitchFunction<T> s(rc, rs); std::ostringstream o; o << "[";
    for (size_t i = 0; i < r.size(); i++) {
        c.build((T)r[i]); q.build((T)r[i]); T sv[2] = {s.val((T)r[i]), s.der2r((T)r[i])};
        o << (i ? ",{" : "{"); list(o, "t", c.vals(), c.size()); list(o, "tx", c.ders2uu(), c.size()); list(o, "tr", c.ders2r(), c.size());
        list(o, "q", q.vals(), q.size()); list(o, "qr", q.ders2r(), q.size()); list(o, "s", sv, 2, true); o << "}";
    }
    return o.str() + "]";
}
template <class T> static std::string deRun(int n, T rc, T rs, const std::vector<double>& r) {
    mtp::SwitchFunc<T> s(rc, rs); std::ostringstream o; o << "[";
    for (size_t i = 0; i < r.size(); i++) {
        mtp::RadialBasisChebyshev<T> c(rc, rs, n - 1, (T)r[i]); T sv[2] = {s.get_result((T)r[i]), s.get_deriv2rji((T)r[i])};
        std::vector<T> tx(n); for (int m = 0; m < n; m++) tx[m] = c.get_chebyshev_ders()[m] * (rc - rs) / 2;
        if (c.get_rcut() != rc || c.get_rcut_smooth() != rs || c.get_rji() != (T)r[i] || c.get_hmju() != n - 1) abort();
        o << (i ? ",{" : "{"); list(o, "t", c.get_chebyshev_vals(), n); list(o, "tx", tx.data(), n); list(o, "tr", c.get_chebyshev_ders(), n);
        list(o, "q", c.get_rb_vals(), n); list(o, "qr", c.get_rb_ders(), n); list(o, "s", sv, 2, true); o << "}";
    }
    return o.str() + "]";
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string kind; int size, n; double rc, rs; in >> kind >> size >> rc >> rs >> n; std::vector<double> r(n); for (auto& x : r) in >> x;
        std::string o = kind == "mtp64" ? mtpRun<double>(size, rc, rs, r) : kind == "mtp32" ? mtpRun<float>(size, rc, rs, r)
                      : kind == "mtpr64" ? mtprRun<double>(size, rc, rs, r) : kind == "de64" ? deRun<double>(size, rc, rs, r) : kind == "de32" ? deRun<float>(size, rc, rs, r) : mtprRun<float>(size, rc, rs, r);
        printf("VF %s\n", o.c_str()); fflush(stdout);
    }
}
