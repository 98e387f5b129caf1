"""Builds everything the checks need from /repo's current working tree."""
import os, subprocess, glob, sys, hashlib, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/CMakePasm/source"; EOL = REPO + "/CMakePasm/eolconvert"
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
OPT = "opt-18" if os.path.exists("/usr/bin/opt-18") else "/usr/lib/llvm-18/bin/opt"
LINK = "llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link"

class BuildError(Exception): pass
def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode: raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode("utf8", "replace")[-3000:])
    return p.stdout

def engine():
    sh(["make", "-s", "-C", VERIF + "/engine"])
    return VERIF + "/build/symex"

def generate(work):
    """bison and flex, as the project's build does"""
    a = subprocess.Popen(["bison", "--defines=pasm.tab.h", "-o", "pasm.tab.cc", SRC + "/pasm.y"], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    sh(["flex", "-o", "pasm.flex.cc", SRC + "/pasm.l"], cwd=work)
    out = a.communicate()[0]
    if a.returncode: raise BuildError(out.decode("utf8", "replace"))

IRFLAGS = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-threadsafe-statics", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-use-cxa-atexit", "-emit-llvm", "-c"]
def sources(work):
    return sorted(glob.glob(SRC + "/*.cc")) + [work + "/pasm.tab.cc", work + "/pasm.flex.cc"]

def ir_one(src, out, extra):
    sh([CLANG] + [f for f in IRFLAGS if f != "-fno-exceptions"] + extra + [src, "-o", out]); return out

def repo_bc(work, pool):
    """LLVM IR of the assembler, from the current sources"""
    inc = ["-I" + VERIF + "/rt/stubs", "-I" + SRC, "-I" + work]
    fs = []
    for s in sources(work):
        o = work + "/" + os.path.basename(s) + ".bc"
        ex = ["-Dmain=pasm_main"] if s.endswith("/main.cc") else []
        fs.append(pool.submit(ir_one, s, o, inc + ex))
    fs.append(pool.submit(ir_one, VERIF + "/rt/cxxlib.cpp", work + "/cxxlib.bc", inc)) # library parts, used only where the program does
    objs = [f.result() for f in fs]
    sh([LINK] + objs + ["-o", work + "/repo0.bc"])
    sh([OPT, "-passes=function(lowerinvoke,simplifycfg),globaldce,function(sroa,mem2reg,early-cse,simplifycfg<bonus-inst-threshold=8>,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=8>)", work + "/repo0.bc", "-o", work + "/repo.bc"])
    return work + "/repo.bc"

def model_bc(work, src, name, extra=()):
    o = work + "/" + name
    lang = ["-std=c++17"] if src.endswith(".cpp") else []
    cc = [CLANG] if src.endswith(".cpp") else [CLANG, "-x", "c"]
    fl = [f for f in IRFLAGS if f != "-std=c++17"] + (["-std=c++17"] if src.endswith(".cpp") else ["-std=gnu11"])
    fl = [f for f in fl if not (src.endswith(".c") and f in ("-fno-rtti",))]
    sh(cc + fl + ["-fno-builtin", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"] + list(extra) + [src, "-o", o + ".0"])
    sh([OPT, "-passes=function(sroa,mem2reg,early-cse,simplifycfg)", o + ".0", "-o", o])
    return o

def native_pasm(work, pool, name="pasm", flags=("-O2", "-DNDEBUG", "-g0"), cxx="g++"):
    """the real program, for replay and for validating the model"""
    inc = ["-I" + SRC, "-I" + work]
    fs = []
    for s in sources(work):
        o = work + "/" + name + "." + os.path.basename(s) + ".o"
        fs.append((pool.submit(sh, [cxx, "-std=c++17", "-w"] + list(flags) + inc + ["-c", s, "-o", o]), o))
    for f, _ in fs: f.result()
    sh([cxx] + [f for f in flags if f.startswith("-fsan")] + [o for _, o in fs] + ["-o", work + "/" + name])
    return work + "/" + name

def harness_exe(work, src, nm, flags=(), unit=False, asan=False, link=False):
    """native build of a harness.  Unit harnesses are linked with the program's own objects (main renamed)."""
    san = ["-fsanitize=address,undefined", "-fno-sanitize=shift,pointer-overflow,signed-integer-overflow", "-fno-sanitize-recover=undefined"] if asan else []
    exe = "%s/%s.exe" % (work, nm)
    if not unit:
        sh(["gcc", "-O1", "-w", "-std=gnu11", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"] + list(flags) + [src, VERIF + "/rt/vp_native.c", "-o", exe]); return exe
    cc = ["g++", "-std=c++17"] if src.endswith(".cpp") else ["gcc", "-std=gnu11"]
    sh(cc + ["-O1", "-w", "-g"] + san + ["-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I" + SRC, "-I" + work] + list(flags) + ["-c", src, "-o", "%s/%s.o" % (work, nm)])
    if asan or link: return link_unit(work, nm, asan)
    return exe
def link_unit(work, nm, asan):
    san = ["-fsanitize=address,undefined"] if asan else []; pre = "pasm_asan" if asan else "pasm"
    sh(["g++", "-O1", "-g", "-w", "-std=c++17", "-Dmain=pasm_main"] + san + ["-I" + SRC, "-I" + work, "-c", SRC + "/main.cc", "-o", "%s/%s.main.u.o" % (work, nm)])
    objs = [o for o in glob.glob("%s/%s.*.cc.o" % (work, pre)) if not o.endswith(".main.cc.o")]
    sh(["gcc", "-c", "-O1", "-w", VERIF + "/rt/vp_native.c", "-o", "%s/%s.vpn.o" % (work, nm)])
    sh(["g++"] + san + ["%s/%s.o" % (work, nm), "%s/%s.main.u.o" % (work, nm), "%s/%s.vpn.o" % (work, nm)] + objs + ["-o", "%s/%s.exe" % (work, nm)])
    return "%s/%s.exe" % (work, nm)
def link_units(work, names):
    for n in sorted(set(names)): link_unit(work, n, False)

def eolconvert(work):
    """the line-ending converter: IR (library streams, paths and directories replaced by models) and the real program"""
    src = EOL + "/eolconvert.cc"; fl = [f for f in IRFLAGS if f != "-fno-exceptions"]
    def ir():
        sh([CLANG] + fl + ["-Dmain=eol_main", "-I" + VERIF + "/rt/stubs", "-I" + EOL, src, "-o", work + "/eol.a.bc"])
        sh([CLANG] + fl + ["-I" + VERIF + "/rt/stubs", VERIF + "/rt/cxxlib.cpp", "-o", work + "/eol.b.bc"])
        sh([LINK, work + "/eol.a.bc", work + "/eol.b.bc", "-o", work + "/eol.c.bc"])
        sh([OPT, "-passes=function(lowerinvoke,simplifycfg),globaldce,function(sroa,mem2reg,early-cse,simplifycfg<bonus-inst-threshold=8>,instcombine<no-verify-fixpoint>,simplifycfg<bonus-inst-threshold=8>)", work + "/eol.c.bc", "-o", work + "/eol.bc"])
    with cf.ThreadPoolExecutor(3) as p:
        f = [p.submit(ir), p.submit(sh, ["g++", "-std=c++17", "-O2", "-w", src, "-o", work + "/eolconvert"]),
             p.submit(sh, ["g++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", src, "-o", work + "/eolconvert_asan"])]
        for x in f: x.result()
    return work + "/eol.bc"
