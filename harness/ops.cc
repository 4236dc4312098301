// The operators of se4pw_op.cc have no binding of their own in the repository: these hand them to Python unchanged.
#include <torch/extension.h>
#include "descriptor/deepmd/include/se4pw_op.h"
using matersdk::deepPotSE::Se4pwOp;
TORCH_LIBRARY(vfops, m) {
    m.def("se4pw", [](at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor x, at::Tensor ty, int64_t nt, at::Tensor sel, double rc, double rs) {
        return Se4pwOp::forward((int)il.size(0), (int)il.size(1), il, nn, fn, x, ty, (int)nt, sel, rc, rs); });
    m.def("prim", [](at::Tensor il, at::Tensor nn, at::Tensor fn, at::Tensor ty, int64_t nt, at::Tensor sel) {
        return Se4pwOp::get_prim_indices_from_matersdk((int)il.size(0), (int)il.size(1), il, nn, fn, ty, (int)nt, sel); });
}
