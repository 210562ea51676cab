#!/usr/bin/env python3
"""Mutation run: small random changes to the library, one at a time, in a
scratch copy, each against the checks of the properties its file implements.
Survivors are either equivalent or show what the checks do not observe.

usage: mutate.py run LOG N SEED [FILE-REGEX]     (scratch in /tmp/mut)
       mutate.py survivors LOG
"""
import collections, json, os, random, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = os.environ.get("MUT", "/tmp/mut")
R = M + "/repo"
SRC = os.environ.get("MUT_SRC", "/repo")
FILES = [
    ("dpf/distributed_point_function.cc", "C02 C01 C03 C07 C05 C06 C24 C26"),
    ("dpf/distributed_point_function.h", "C02 C03 C01 C07 C05 C24"),
    ("dpf/internal/evaluate_prg_hwy.cc", "C04 C03 C26"),
    ("dpf/internal/proto_validator.cc", "C07 C02 C01"),
    ("dpf/internal/value_type_helpers.cc", "C08 C09 C05 C07"),
    ("dpf/internal/value_type_helpers.h", "C08 C09 C05 C07"),
    ("dpf/internal/aes_128_fixed_key_hash_hwy.h", "C12 C04"),
    ("dpf/internal/maybe_deref_span.h", "C03 C10"),
    ("dpf/aes_128_fixed_key_hash.cc", "C12 C24 C26"),
    ("dpf/aes_128_fixed_key_hash.h", "C12"),
    ("dpf/int_mod_n.cc", "C09 C08"),
    ("dpf/int_mod_n.h", "C08 C09"),
    ("dpf/tuple.h", "C08"),
    ("dpf/xor_wrapper.h", "C08"),
    ("dcf/distributed_comparison_function.cc", "C10"),
    ("dcf/distributed_comparison_function.h", "C10"),
    ("dcf/fss_gates/multiple_interval_containment.cc", "C11 C14 C26"),
    ("dcf/fss_gates/multiple_interval_containment.h", "C11 C14"),
    ("dcf/fss_gates/prng/basic_rng.h", "C14 C26"),
    ("pir/cuckoo_hashed_dpf_pir_database.cc", "C25 C17 C20 C26"),
    ("pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "C17 C20 C19"),
    ("pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "C17 C20 C14"),
    ("pir/dense_dpf_pir_client.cc", "C16 C20 C19"),
    ("pir/dense_dpf_pir_database.cc", "C15 C25 C16"),
    ("pir/dense_dpf_pir_server.cc", "C16 C20 C26"),
    ("pir/dpf_pir_client.h", "C19 C16 C26"),
    ("pir/dpf_pir_server.cc", "C19 C16 C26"),
    ("pir/simple_hashed_dpf_pir_database.cc", "C25 C18 C20 C26"),
    ("pir/simple_hashing_sparse_dpf_pir_client.cc", "C18 C20 C19"),
    ("pir/simple_hashing_sparse_dpf_pir_server.cc", "C18 C20 C14"),
    ("pir/hashing/cuckoo_hash_table.cc", "C21"),
    ("pir/hashing/cuckoo_hash_table.h", "C21"),
    ("pir/hashing/farm_hash_family.cc", "C23"),
    ("pir/hashing/hash_family.cc", "C23"),
    ("pir/hashing/hash_family.h", "C23"),
    ("pir/hashing/hash_family_config.cc", "C23"),
    ("pir/hashing/multiple_choice_hash_table.cc", "C22"),
    ("pir/hashing/multiple_choice_hash_table.h", "C22"),
    ("pir/hashing/sha256_hash_family.cc", "C23"),
    ("pir/hashing/simple_hash_table.cc", "C22"),
    ("pir/hashing/simple_hash_table.h", "C22"),
    ("pir/internal/inner_product_hwy.cc", "C15"),
    ("pir/prng/aes_128_ctr_seeded_prng.cc", "C13"),
    ("experiments/synthetic_data_benchmarks.cc", "C30"),
    ("pir/testing/request_generator.cc", "C29"),
    ("pir/testing/pir_selection_bits.cc", "C29"),
    ("pir/testing/pir_selection_bits.h", "C29"),
    ("pir/testing/mock_pir_database.cc", "C29"),
    ("pir/testing/mock_pir_database.h", "C29"),
]
OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
    (r" \+= ", " -= "), (r" \^= ", " |= "), (r" \+= ", " = "), (r" -= ", " += "), (r" \^= ", " = "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
    (r"\b128\b", "127"), (r"\b64\b", "63"), (r"\b7\b", "6"), (r"\b16\b", "8"),
    (r"!(?=[a-z*(])", ""), (r"if \((?=[a-z!*(])", "if (!"), (r"\+\+(?=[a-z])", "--"),
    (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"),
    (r"\bstd::ceil\b", "std::floor"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\bleft\b", "right"),
    (r"_left\b", "_right"), (r"_right\b", "_left"), (r"\[i\]", "[0]"), (r"\[j\]", "[0]"), (r"\.high\(\)", ".low()"), (r"High64", "Low64"),
    (r"\bint64_t\b", "int16_t"), (r"\blhs\b", "rhs"), (r"\bkey\b", "key", ),
    (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
]


def candidates(f):
    text = open(SRC + "/" + f).read()
    lines = text.split("\n")
    in_class_comment = False
    out = []
    for n, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "using", "namespace", "template", "*", '"', "ABSL_DCHECK", "static_assert", "DCHECK")):
            continue
        if "StrCat" in l or "Error(" in l:
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), l.split("//")[0])
        for a, b in OPS:
            for m in re.finditer(a, code):
                new = l[:m.start()] + b + l[m.end():]
                if new.startswith("  if (!") and a.startswith("if"):
                    pass
                if new != l:
                    out.append((f, n, l, new))
        # Drop a statement.
        if re.match(r"^\s+[\w\.\->\*\(\[\]:]+(.*[^=!<>]=[^=].*|\(.*\));\s*$", code) and not re.match(r"^\s*(return|const|auto|int|bool|absl::uint128|std::|size_t|int64_t|else|DPF_ASSIGN)", s) \
                and (n == 0 or lines[n - 1].strip().endswith((";", "{", "}", "")) and not lines[n - 1].strip().endswith((",", "(", "=", "+", "&&", "||"))):
            out.append((f, n, l, re.match(r"\s*", l).group(0) + ";"))
        # Drop a DPF_RETURN_IF_ERROR.
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def run(log, n, seed, pat):
    os.makedirs(M, exist_ok=True)
    if not os.path.isdir(R):
        sh("cp -a %s %s" % (SRC, R))
    r = sh("cd %s && git checkout -q -- . && git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD" % (R, SRC), env=dict(os.environ, GIT_LFS_SKIP_SMUDGE="1"))
    if r.returncode:
        sys.exit(r.stdout)
    done = set()
    if os.path.exists(log):
        for l in open(log):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    rng = random.Random(seed)
    per = {}
    for f, props in FILES:
        if re.search(pat, f):
            per[f] = candidates(f)
            rng.shuffle(per[f])
    total = sum(map(len, per.values()))
    print("candidates", total, flush=True)
    todo = []
    for f, c in per.items():
        todo += c[:max(2, round(n * len(c) / total))]
    props = dict(FILES)
    # One at a time; the mutated file is restored with new content so that ninja sees it.
    for f, line, old, new in todo:
        if (f, line, new) in done:
            continue
        path = R + "/" + f
        text = open(SRC + "/" + f).read().split("\n")
        assert text[line] == old
        text[line] = new
        open(path, "w").write("\n".join(text))
        env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=M + "/build", VERIF_SEED="1", VERIF_TIER="quick")
        res, t0, first = "survived", time.time(), ""
        for p in props[f].split():
            r = sh("timeout 800 python3 %s/tools/check.py %s --scale 0.4" % (VERIF, p), env=env)
            if r.returncode == 1:
                res = p
                v = [l for l in r.stdout.split("\n") if l.strip() and "VIOLATION" not in l]
                first = v[0][:200] if v else ""
                break
            if r.returncode == 3:
                res = "nobuild"
                break
            if r.returncode not in (0, 4):
                first += "%s exit %d; " % (p, r.returncode)
        open(log, "a").write(json.dumps(dict(file=f, line=line, old=old, new=new, result=res, first=first, seconds=round(time.time() - t0))) + "\n")
        open(path, "w").write(open(SRC + "/" + f).read())
    print("done", flush=True)


def survivors(log):
    c = collections.Counter()
    for l in open(log):
        d = json.loads(l)
        c[d["result"] if d["result"] in ("survived", "nobuild") else "killed"] += 1
        if d["result"] == "survived":
            print("%s:%d %s\n  - %s\n  + %s" % (d["file"], d["line"] + 1, d["first"], d["old"].strip(), d["new"].strip()))
    print(dict(c))


if __name__ == "__main__":
    if sys.argv[1] == "run":
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5] if len(sys.argv) > 5 else ".")
    else:
        survivors(sys.argv[2])
