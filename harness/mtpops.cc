// The moment tensor operators and modules of /repo, handed to Python unchanged; the modules get the given coefficients.
#include <torch/torch.h>
#include <torch/library.h>
#include "descriptor/mtp/include/mtpMRadialOp.h"
#include "descriptor/mtp/include/mtpMAngularOp.h"
#include "descriptor/mtp/include/mtpMModule.h"
#include "descriptor/mtp/include/mtpBModule.h"
using namespace matersdk::mtp;
template <class M> static void fill(M& m, const at::Tensor& co) {      // co: one row per coefficient vector
    torch::NoGradGuard g; auto ps = m->parameters();
    TORCH_CHECK((int64_t)ps.size() == co.size(0), "number of coefficient vectors");
    for (size_t i = 0; i < ps.size(); i++) ps[i].copy_(co[i]);
}
TORCH_LIBRARY(vfmtp, m) {
    m.def("q", [](int64_t size, at::Tensor rc, at::Tensor x) { return MtpQOp(size, rc, x)[0]; });
    m.def("angular", [](at::Tensor x, int64_t nu) { return MtpMAngularOp(x, (int)nu); });
    m.def("moment", [](int64_t nmus, int64_t nt, int64_t size, at::Tensor rc, at::Tensor co, int64_t mu, int64_t nu, int64_t i, at::Tensor nb, at::Tensor ty, at::Tensor x) {
        MtpMModule mod(nmus, nt, size, rc); mod->to(x.scalar_type()); fill(mod, co); return mod->forward(mu, nu, i, nb, ty, x); });
    m.def("basis", [](int64_t level, int64_t nt, int64_t size, at::Tensor rc, at::Tensor co, at::Tensor il, at::Tensor nb, at::Tensor ty, at::Tensor x) {
        MtpBModule mod(level, nt, size, rc); mod->to(x.scalar_type()); fill(mod, co); return mod->forward(il, nb, x, ty); });
    m.def("combs", [](int64_t level) {
        MtpMCoeffPairCombs c((int)level); std::vector<int64_t> o;
        for (auto& x : c.coeff_pair_combs()) { o.push_back(x.size()); for (auto& p : x) { o.push_back(p.coeff_pair().first); o.push_back(p.coeff_pair().second); } }
        return at::tensor(o, at::kLong); });
}
