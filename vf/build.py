"""Build the compiled parts of /repo's current tree into the check's scratch directory."""
import os, subprocess, sysconfig
from . import core

GXX = ["g++", "-fno-unreachable-traps", "-w"]


def run(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=core.clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    if r.returncode != 0:
        raise core.MachineryError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def nblist(ctx):
    """The nblist Python extension, as source/nblist/bind/setup.py builds it; returns its directory."""
    out = ctx.path("nblist", "x")
    out = os.path.dirname(out)
    src = os.path.join(core.REPO, "source/nblist/bind")
    wrap = os.path.join(out, "nblist_wrap.cxx")
    run(["swig", "-c++", "-python", "-o", wrap, "-outdir", out, os.path.join(src, "nblist.i")])
    npi = run([core.PY, "-c", "import numpy;print(numpy.get_include())"]).strip().splitlines()[-1]
    pyi = run([core.PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip().splitlines()[-1]
    inc = ["-I" + src, "-I" + os.path.join(core.REPO, "source/nblist/include"), "-I" + npi, "-I" + pyi]
    run(GXX + ["-O2", "-fPIC", "-shared"] + inc + [os.path.join(src, "nblist_bind.cc"), wrap,
        "-o", os.path.join(out, "_nblist.so")], cwd=out)
    return out


def harness(ctx, name, extra=(), flags=()):
    """harness/<name>.cc compiled against /repo's headers; returns the program's path."""
    exe = ctx.path("bin", name)
    run(GXX + ["-g", "-O1", "-std=gnu++17", "-I" + os.path.join(core.REPO, "source")] + list(flags) +
        [os.path.join(core.VERIF, "harness", name + ".cc")] + list(extra) + ["-o", exe])
    return exe


def torch_lib(ctx, name, srcs, std="c++20"):
    """Sources compiled against torch, as one library for torch.ops.load_library: $VF_DIR/ops/<name>.so"""
    from concurrent.futures import ThreadPoolExecutor
    out = ctx.path("ops", name + ".so")
    tp = run([core.PY, "-c", "import torch;print(torch.__path__[0])"]).strip().splitlines()[-1]
    pyi = run([core.PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).strip().splitlines()[-1]
    inc = ["-I" + os.path.join(core.REPO, "source"), "-I" + tp + "/include", "-I" + tp + "/include/torch/csrc/api/include", "-I" + pyi]
    objs = [ctx.path("ops", "%s%d.o" % (name, k)) for k in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: run(["g++", "-w", "-O0", "-fPIC", "-std=" + std] + inc + ["-c", a[0], "-o", a[1]]), zip(srcs, objs)))
    run(["g++", "-shared"] + objs + ["-L" + tp + "/lib", "-ltorch", "-ltorch_cpu", "-lc10", "-o", out])
    return out


def torch_ops(ctx):
    """The environment-matrix operators with their binding, and harness/ops.cc."""
    d = os.path.join(core.REPO, "source/descriptor/deepmd")
    return torch_lib(ctx, "ops", [os.path.join(d, "src/envMatrixOp.cc"), os.path.join(d, "src/se4pw_op.cc"), os.path.join(d, "bind/envMatrixOp_bind.cc"),
                                  os.path.join(core.VERIF, "harness/ops.cc")])


def torch_mtp(ctx):
    """The moment tensor operators and modules, and harness/mtpops.cc."""
    d = os.path.join(core.REPO, "source/descriptor/mtp/src")
    return torch_lib(ctx, "mtp", [os.path.join(d, f + ".cc") for f in ("mtpMRadialOp", "mtpMAngularOp", "mtpMModule", "mtpBModule", "mtpLevel")] +
                     [os.path.join(core.VERIF, "harness/mtpops.cc")])
