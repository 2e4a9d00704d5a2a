#!/usr/bin/env python3
"""Development helper: runs the quick checks on automatically made one-line
mutants of the library, to find changes no check notices.

mutate.py DIR WORKERS COUNT SEED [file...]

Each worker has its own copy of /verif (HEAD) and of /repo (HEAD) under DIR;
results go to DIR/log.jsonl, one line per mutant: what was changed, and which
check rejected it (or "survived", "nobuild").
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue

MAP = {
    "include/INTorus.hpp": ["C18"],
    "include/cuhe++.hpp": ["C18", "C06"],
    "include/raintt.hpp": ["C18", "C06"],
    "include/mulfft.hpp": ["C06", "C18", "C04", "C19"],
    "include/nussbaumer.hpp": ["C06"],
    "include/bfv++.hpp": ["C19", "C06"],
    "include/circuitbootstrapping.hpp": ["C09", "C20"],
    "include/cloudkey.hpp": ["C15", "C13", "C07", "C17", "C14", "C11"],
    "src/cloudkey.cpp": ["C15", "C13", "C07"],
    "include/cmuxmem.hpp": ["C10"],
    "include/detwfa.hpp": ["C04", "C10", "C03", "C08"],
    "include/gate.hpp": ["C02", "C10", "C03"],
    "src/gate.cpp": ["C02", "C10"],
    "include/gatebootstrapping.hpp": ["C03", "C02", "C09", "C20"],
    "include/homdecomp.hpp": ["C12"],
    "include/io-packet.hpp": ["C13"],
    "include/key.hpp": ["C14", "C13", "C16"],
    "src/key.cpp": ["C16"],
    "include/keybundle.hpp": ["C21"],
    "thirdparties/fftw/fft_processor_fftw.cpp": ["C21"],
    "include/keyswitch.hpp": ["C07", "C11", "C09"],
    "include/lweParams.hpp": ["C14", "C13"],
    "include/tlwe.hpp": ["C01", "C17", "C05"],
    "include/trgsw.hpp": ["C04", "C05", "C01", "C17", "C09"],
    "include/trlwe.hpp": ["C08", "C01", "C17", "C05"],
    "include/utils.hpp": ["C06", "C01", "C17", "C11", "C16", "C05"],
    "thirdparties/spqlios/fft_processor_spqlios.cpp": ["C06", "C19", "C21"],
}

OPS = [
    (r" < (?=\w)", " <= "),
    (r"<=", "<"), (r">=", ">"),
    (r"==", "!="), (r"!=", "=="),
    (r"\+=", "-="), (r"-=", "+="),
    (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "),
    (r"(?<=[\w)\]]) \* (?=[\w(])", " + "), (r" / ", " * "),
    (r"<<", ">>"), (r">>(?!\w*$)", "<<"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"&&", "||"), (r"\|\|", "&&"), (r" % ", " / "), (r" \^ ", " | "), (r" & (?=[\w(])", " | "),
    (r"\bP::k\b", "(P::k - 1)"), (r"\bP::n\b", "(P::n - 1)"), (r"\bP::l\b", "(P::l - 1)"),
    (r"\btargetP::k\b", "(targetP::k - 1)"), (r"\btargetP::n\b", "(targetP::n - 1)"),
    (r"\bdomainP::k\b", "(domainP::k - 1)"), (r"\bdomainP::n\b", "(domainP::n - 1)"),
    (r"\bi\b(?=\])", "0"), (r"\bj\b(?=\])", "0"), (r"\bk\b(?=\])", "0"),
    (r"\bi\b(?=\])", "i / 2"), (r"\blvl1param\b", "lvl2param"), (r"\blvl2param\b", "lvl1param"),
    (r"\btargetP\b", "domainP"), (r"\bdomainP\b", "targetP"),
    (r"P::μ", "P::μ / 2"), (r"P::α", "(P::α * 64)"), (r"P::α", "0"),
    (r"\ba\b", "b"), (r"\bb\b", "a"),
    (r"(?<=[(,\s])-(?=[\w(])", ""),
]


def mutants(path, text):
    out, incomment = [], False
    lines = text.split("\n")
    for n, line in enumerate(lines):
        code = line.split("//")[0]
        if "/*" in code:
            incomment = True
        if incomment:
            if "*/" in code:
                incomment = False
            continue
        s = code.strip()
        if not s or s.startswith(("#", "template", "using", "static_assert", "extern", "inline", "namespace", "//")):
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                if new != code:
                    out.append((n, line, new))
        if s.endswith(";") and not re.match(r"(return|const|constexpr|static|break|continue|alignas|auto|\}|std::(array|unique|vector)|uint|int|TLWE|TRLWE|TRGSW|Poly|typename|T |__|double|ar\(|size_t)", s) \
                and s.count("(") == s.count(")"):
            out.append((n, line, code.replace(s, ";")))
        m = re.match(r"\s*(TLWE<|TRLWE<|TRGSW\w*<|Polynomial\w*<|DecomposedPolynomial\w*<|alignas)", code)
        if m and s.endswith(";") and "=" not in s:
            out.append((n, line, code.replace(s, "static " + s)))
    return [(path, n, o, w) for n, o, w in dict.fromkeys(out)]


def main():
    d, nw, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or list(MAP)
    os.makedirs(d, exist_ok=True)
    rng = random.Random(seed)
    allm = []
    for f in files:
        t = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{f}"], capture_output=True, text=True).stdout
        ms = mutants(f, t)
        rng.shuffle(ms)
        # one or two mutants of each line before further ones of the same line
        seen, first, later = {}, [], []
        for m in ms:
            seen[m[1]] = seen.get(m[1], 0) + 1
            (first if seen[m[1]] <= 1 else later).append(m)
        allm.append((first, later))
        print(f, len(ms), len(first))
    pool = [m for f, _ in allm for m in f]
    rng.shuffle(pool)
    rest = [m for _, l in allm for m in l]
    rng.shuffle(rest)
    log = os.path.join(d, "log.jsonl")
    done = set()
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    pool = [m for m in pool + rest if (m[0], m[1] + 1, m[3].strip()) not in done][:count]
    if nw == 0:
        print(len(pool))
        return
    q = queue.Queue()
    for m in pool:
        q.put(m)
    lk = threading.Lock()

    def worker(k):
        w = os.path.join(d, str(k))
        shutil.rmtree(w, ignore_errors=True)
        for src, name in (("/verif", "verif"), ("/repo", "repo")):
            os.makedirs(f"{w}/{name}")
            subprocess.run(f"git -C {src} archive HEAD | tar x -C {w}/{name}", shell=True, check=True)
        subprocess.run(f"mkdir -p {w}/verif/build && cp -a /verif/build/obj {w}/verif/build/", shell=True)
        while True:
            try:
                f, n, old, new = q.get_nowait()
            except queue.Empty:
                break
            p = f"{w}/repo/{f}"
            orig = open(p).read()
            lines = orig.split("\n")
            assert lines[n] == old
            lines[n] = new
            open(p, "w").write("\n".join(lines))
            res = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), result="survived", why="")
            for c in MAP[f]:
                try:
                    r = subprocess.run(["python3", "bin/check.py", c], cwd=f"{w}/verif", capture_output=True, text=True,
                                       timeout=900, env=dict(os.environ, VERIF_REPO=f"{w}/repo", VERIF_SEED="1"))
                    out = r.stdout + r.stderr
                    if r.returncode == 1 and f"VIOLATION property={c}" in out:
                        res.update(result=c, why=out[:300])
                        break
                    if r.returncode == 2:
                        res.update(result="nobuild" if "build failed" in out else "noverdict:" + c, why=out[-600:])
                        break
                except subprocess.TimeoutExpired:
                    res.update(result="timeout:" + c)
                    break
            open(p, "w").write(orig)
            with lk, open(log, "a") as lf:
                lf.write(json.dumps(res) + "\n")
            # objects of mutants are of no further use
            for o in os.listdir(f"{w}/verif/build/obj"):
                if not os.path.exists(f"/verif/build/obj/{o}") and not o.startswith("."):
                    os.unlink(f"{w}/verif/build/obj/{o}")
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
