// The moment-tensor enumeration and the template reader of /repo: one command per line, one JSON answer per command.
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "descriptor/mtp/include/mtpLevel.h"
#include "descriptor/mtpr/include/mtpParam.h"
using namespace matersdk;
typedef std::vector<std::vector<mtp::MtpMCoeffPair>> Combs;

static std::string text(const Combs& cs) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < cs.size(); i++) {
        o << (i ? ",[" : "[");
        for (size_t j = 0; j < cs[i].size(); j++) o << (j ? ",[" : "[") << cs[i][j].coeff_pair().first << "," << cs[i][j].coeff_pair().second << "," << cs[i][j].level() << "]";
        o << "]";
    }
    return o.str() + "]";
}
static std::string text(const mtpr::MtpParam& p) {
    std::ostringstream o;
    auto quads = [&](const int (*a)[4], int n) { o << "["; for (int i = 0; i < n; i++) o << (i ? "," : "") << "[" << a[i][0] << "," << a[i][1] << "," << a[i][2] << "," << a[i][3] << "]"; o << "]"; };
    o << "{\"nm\":" << p.alpha_moments_count() << ",\"nb\":" << p.alpha_index_basic_count() << ",\"basic\":"; quads(p.alpha_index_basic(), p.alpha_index_basic_count());
    o << ",\"nt\":" << p.alpha_index_times_count() << ",\"times\":"; quads(p.alpha_index_times(), p.alpha_index_times_count());
    o << ",\"ns\":" << p.alpha_scalar_moments() << ",\"map\":[";
    for (int i = 0; i < p.alpha_scalar_moments(); i++) o << (i ? "," : "") << p.alpha_moment_mapping()[i];
    o << "]}"; return o.str();
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string cmd; in >> cmd; std::ostringstream o;
        if (cmd == "schemes") { int l; in >> l; o << text(mtp::MtpMCoeffPairCombs::get_all_schemes4lev(l, 0, 0)); }
        else if (cmd == "combs") {
            int l; in >> l; mtp::MtpMCoeffPairCombs c(l);
            o << "{\"max\":" << c.max_level() << ",\"size\":" << c.size() << ",\"nmus\":" << c.nmus() << ",\"nmusc\":" << c.nmus_check() << ",\"combs\":" << text(c.coeff_pair_combs()) << "}";
        }
        else if (cmd == "filter") {
            int n; in >> n; Combs cs(n);
            for (auto& c : cs) { int k; in >> k; while (k--) { int m, v; in >> m >> v; c.push_back(mtp::MtpMCoeffPair(m, v)); } }
            o << text(mtp::MtpMCoeffPairCombs::get_contracted_combs(cs));
        }
        else if (cmd == "param") {
            std::string f; in >> f; std::string a, err;
            try { mtpr::MtpParam p(f); a = text(p); } catch (const mtpr::MtpException& e) { err = "MtpException"; }
            o << "{\"err\":\"" << err << "\",\"p\":" << (err.empty() ? a : "null") << "}";
        }
        printf("VF %s\n", o.str().c_str()); fflush(stdout);
    }
}
