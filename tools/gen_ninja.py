#!/usr/bin/env python3
"""Writes a ninja file that builds /repo's current sources plus our harnesses.

usage: gen_ninja.py OUTDIR CONFIG TARGET...
  CONFIG  asan | tsan | plain | mem | steps | scalarsteps | scalar | emu128  (see CONFIGS)
  TARGET  a harness name (harness/NAME.cc), or test:path/to/x_test.cc, or "tests"
"""
import glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
CONFIGS = {
    "asan": "-O1 -g1 " + SAN,
    "tsan": "-O1 -g1 -fsanitize=thread",
    "plain": "-O2 -g1",
    "mem": "-O1 -g1",
    "steps": "-O1 -g1 -fsanitize-coverage=trace-pc",
    "scalarsteps": "-O1 -g1 -fsanitize-coverage=trace-pc -DHWY_COMPILE_ONLY_SCALAR",
    "scalar": "-O1 -g1 -DHWY_COMPILE_ONLY_SCALAR " + SAN,
    "emu128": "-O0 -g1 -DHWY_COMPILE_ONLY_EMU128 " + SAN,
}
DIRS = ("dpf", "dcf", "pir")
LIBS = """-lprotobuf -lfarmhash -lhwy -labsl_status -labsl_statusor -labsl_cord
 -labsl_cord_internal -labsl_cordz_info -labsl_cordz_handle -labsl_cordz_functions
 -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set
 -labsl_hashtablez_sampler -labsl_exponential_biased
 -labsl_random_distributions -labsl_random_seed_sequences
 -labsl_random_internal_pool_urbg -labsl_random_internal_randen
 -labsl_random_internal_randen_hwaes -labsl_random_internal_randen_hwaes_impl
 -labsl_random_internal_randen_slow -labsl_random_internal_platform
 -labsl_random_internal_seed_material -labsl_random_seed_gen_exception
 -labsl_str_format_internal -labsl_synchronization -labsl_time -labsl_time_zone
 -labsl_civil_time -labsl_strings -labsl_strings_internal -labsl_int128
 -labsl_throw_delegate -labsl_bad_optional_access -labsl_bad_variant_access
 -labsl_raw_logging_internal -labsl_log_severity -labsl_base -labsl_malloc_internal
 -labsl_spinlock_wait -labsl_strerror""".split()


def rel(pattern):
    return sorted(os.path.relpath(p, REPO)
                  for p in glob.glob(os.path.join(REPO, pattern), recursive=True))


def directive(path, name):
    """Words of a `// name: ...` comment among the first lines of a harness source."""
    with open(path) as f:
        for line in f.read().splitlines()[:5]:
            if line.startswith("// %s:" % name):
                return line.split(":", 1)[1].split()
    return []


def main():
    out, config, targets = sys.argv[1], sys.argv[2], sys.argv[3:]
    out = os.path.abspath(out)
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(out, "gen")
    protos = {d: rel(d + "/**/*.proto") for d in DIRS}
    srcs, tests = {d: [] for d in DIRS}, []
    for d in DIRS:
        for f in rel(d + "/**/*.cc"):
            if f.endswith("_benchmark.cc") or f == "pir/testing/encrypt_decrypt.cc":
                continue
            (tests if f.endswith("_test.cc") else srcs[d]).append(f)
    cxx = os.environ.get("VERIF_CXX", "clang++")
    cxxflags = ("-std=c++17 -fclang-abi-compat=17 %s -Wno-everything -I%s/shim -I%s -I%s "
                "-I%s/harness -isystem /usr/include/android" % (
                    CONFIGS[config], VERIF, REPO, gen, VERIF))
    L = []
    w = L.append
    w("ninja_required_version = 1.10")
    w("builddir = %s" % out)
    w("rule cxx\n  command = %s %s $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n"
      "  deps = gcc\n  description = CXX $out" % (cxx, cxxflags))
    w("rule proto\n  command = protoc -I%s --cpp_out=%s $in && python3 %s/tools/patch_pb.py $hdr\n"
      "  restat = 1\n  description = PROTO $in" % (REPO, gen, VERIF))
    w("rule ar\n  command = rm -f $out && ar crs $out $in\n  description = AR $out")
    w("rule link\n  command = %s %s $in -Wl,--start-group $libs -Wl,--end-group -o $out %s -pthread"
      " $ldextra\n  description = LINK $out" % (
          cxx, CONFIGS[config], " ".join(LIBS) + " /usr/lib/x86_64-linux-gnu/android/libcrypto.so"
          " -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android"))
    os.makedirs(gen, exist_ok=True)
    hdrs = []
    for d in DIRS:
        for p in protos[d]:
            b = gen + "/" + p[:-6]
            w("build %s.pb.cc %s.pb.h: proto %s/%s\n  hdr = %s.pb.h" % (b, b, REPO, p, b))
            hdrs.append(b + ".pb.h")
    hdr_dep = " || " + " ".join(hdrs)

    def obj(name, src, extra=""):
        o = "%s/obj/%s.o" % (out, name)
        w("build %s: cxx %s%s" % (o, src, hdr_dep) + ("\n  extra = " + extra if extra else ""))
        return o

    def hobj(src):
        name = os.path.relpath(src, VERIF)[:-3]
        return obj(name, src, " ".join(directive(src, "cxxflags")).replace("/verif/", VERIF + "/"))

    libs = {}
    for d in DIRS:
        objs = [obj(p[:-6] + ".pb", "%s/%s.pb.cc" % (gen, p[:-6])) for p in protos[d]]
        objs += [obj(s[:-3], "%s/%s" % (REPO, s)) for s in srcs[d]]
        if d == "pir":
            objs.append(obj("shim/fake_hybrid", VERIF + "/shim/fake_hybrid.cc"))
        libs[d] = "%s/lib%s.a" % (out, d)
        w("build %s: ar %s" % (libs[d], " ".join(objs)))
    # Directories of shared harness objects, and the archives they need.
    CLOSURE = {"dpf": ["dpf"], "dcf": ["dcf", "dpf"], "pir": ["pir", "dpf"], "common": [],
               "ops": ["dpf"], "vals": ["dpf"], "dcfops": ["dcf", "dpf"], "pirops": ["pir", "dpf"]}
    hobjs = {}

    def shared(d):
        if d not in hobjs:
            hobjs[d] = [hobj(s) for s in sorted(glob.glob("%s/harness/%s/*.cc" % (VERIF, d)))]
        return hobjs[d]

    bins = []
    if "tests" in targets:
        targets = [t for t in targets if t != "tests"] + ["test:" + t for t in tests]
    for t in targets:
        if t.startswith("test:"):
            f = t[5:]
            name = f[:-3].replace("/", ".")
            o = obj(f[:-3], "%s/%s" % (REPO, f))
            w("build %s/bin/%s: link %s | %s\n  libs = %s\n  ldextra = -lgmock -lgtest -lgtest_main -lhwy_test"
              " -lbenchmark" % (out, name, o, " ".join(libs[d] for d in DIRS), " ".join(libs[d] for d in DIRS)))
            bins.append("%s/bin/%s" % (out, name))
        else:
            main_src = "%s/harness/%s.cc" % (VERIF, t)
            parts = [main_src] + sorted(glob.glob("%s/harness/%s_*.cc" % (VERIF, t)))
            objs = [hobj(s) for s in parts] + list(shared("common"))
            ar = ["dpf"]
            for n in directive(main_src, "needs"):
                if n not in ("dpf", "dcf", "pir"):
                    objs += shared(n)
                for d in CLOSURE[n]:
                    if d not in ar:
                        ar.append(d)
            arch = " ".join(libs[d] for d in ar)
            w("build %s/bin/%s: link %s | %s\n  libs = %s\n  ldextra = %s" % (
                out, t, " ".join(objs), arch, arch, " ".join(directive(main_src, "ld"))))
            bins.append("%s/bin/%s" % (out, t))
    w("default " + " ".join(bins or [libs[d] for d in DIRS]))
    text = "\n".join(L) + "\n"
    path = out + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


main()
