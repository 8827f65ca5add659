#!/usr/bin/env python3
"""Development aid: random small mutations of the library, judged by the checks of the properties the file matters to.
usage: automutate.py COUNT SEED [file-substring]     (appends to /tmp/automut.log)"""
import os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "/repo/include/nudb"
CHECKS = [
    (r"impl/basic_store.ipp|basic_store.hpp", "C01 C04 C06 C08 C22 C03 C19 C02 C09 C20 C07 C18 C17"),
    (r"detail/(bucket|bulkio|cache|pool|arena|buffer)", "C01 C08 C11 C04 C13 C15 C14 C20 C03"),
    (r"detail/(stream|field|format|endian|xxhash)|xxhasher", "C10 C01 C17 C14 C13 C16 C04 C12"),
    (r"recover", "C04 C05 C12 C17 C06 C07"),
    (r"rekey", "C11 C12 C09 C16 C06"),
    (r"verify", "C13 C14"),
    (r"visit", "C15 C14"),
    (r"create", "C16 C10 C06"),
    (r"context|store_base", "C18 C03 C22"),
    (r"posix_file|file.hpp|native_file", "C21"),
    (r"gentex|mutex", "C03 C19"),
    (r"error", "C06 C16 C17"),
]


def mutations():
    for root, _, fs in os.walk(INC):
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, INC)
            if "win32" in rel or "_experimental" in rel or rel in ("nudb.hpp", "version.hpp", "concepts.hpp", "type_traits.hpp"):
                continue
            ck = next((c for r, c in CHECKS if re.search(r, rel)), None)
            if not ck:
                continue
            lines = open(p).read().split("\n")
            incomment = False
            for i, l in enumerate(lines):
                if "/*" in l or "/**" in l:
                    incomment = True
                if "*/" in l:
                    incomment = False
                    continue
                s = l.split("//")[0]
                t = s.strip()
                if incomment or not t or t.startswith(("#", "BOOST_ASSERT", "static_assert", "template", "using", "//", "class", "struct", "namespace", "typename")):
                    continue

                def sub(pat, new, what):
                    for m in re.finditer(pat, s):
                        x = s[:m.start()] + m.expand(new) + s[m.end():]
                        yield (rel, i, l, x, what, ck)
                # statement deletion (whole simple statements on one line)
                if re.match(r"^[\w\->.:\[\]()*+ ,&!~]+;$", t) and not re.match(r"^(return\b.+|auto|std::size_t \w+;|.* \w+\{.*|[\w:<>]+ [\w]+;|[\w:<>]+ const\b.*|bool \w+|noff_t .*|break)", t) and lines[i - 1].rstrip().endswith((";", "{", "}", ")", "else")):
                    yield (rel, i, l, s[:len(s) - len(s.lstrip())] + ";", "delete", ck)
                if t in ("return;", "break;", "continue;"):
                    yield (rel, i, l, s.replace(t, ";"), "delete", ck)
                if "for(auto" not in s and "operator" not in s and "<class" not in s:
                    for a, b in ((r"(?<=[\w)\]] )<(?= [\w(])", "<="), (r"(?<=[\w)\]] )>(?= [\w(])", ">="), (r"<=", "<"), (r"(?<![->])>=(?![>])", ">"), (r"==", "!="), (r"!=", "=="),
                                 (r"&&(?! )", ""), (r" && ", " || "), (r" \|\| ", " && "), (r"(?<=[\w)\]]) \+ (?=[\w(])", " - "), (r"(?<=[\w)\]]) - (?=[\w(])", " + "),
                                 (r"(?<=[\w)\]]) \* (?=[\w(])", " + "), (r"\bif\(! ", "if("), (r"\bif\((?=\w)(?!ec\b)", "if(! "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
                                 (r"\+=", "-="), (r"\+\+", "--")):
                        if b:
                            yield from sub(a, b, a)
                    for m in re.finditer(r"(?<![\w.:<x])(\d+)(?![\w.:>])", s):
                        yield (rel, i, l, s[:m.start()] + str(int(m.group(1)) + 1) + s[m.end():], "const+1", ck)
                    if t == "if(ec)":
                        yield (rel, i, l, s.replace("if(ec)", "if(false)"), "no error check", ck)


def swaps():
    """two neighbouring statements (with the error checks that follow them) in the other order"""
    for rel in ("impl/basic_store.ipp", "impl/recover.ipp", "impl/rekey.ipp", "impl/create.ipp", "impl/context.ipp", "impl/posix_file.ipp",
                "impl/visit.ipp", "detail/gentex.hpp", "detail/pool.hpp", "detail/cache.hpp", "detail/bulkio.hpp", "detail/bucket.hpp", "detail/arena.hpp"):
        ck = next((c for r, c in CHECKS if re.search(r, rel)), "C03")
        ls = open(os.path.join(INC, rel)).read().split("\n")
        ind = lambda l: len(l) - len(l.lstrip())
        items = []
        i = 0
        while i < len(ls):
            l = ls[i]
            t = l.strip()
            if not t or t.startswith(("//", "#", "{", "}", "else", "case", "default", "public", "private", "break", "return", "template", "class", "namespace", "if(ec", "using", "BOOST_ASSERT", "static_assert")) or l[:1] not in " ":
                items.append(None if t and not t.startswith(("//", "BOOST_ASSERT", "using")) else 0)
                i += 1
                continue
            a, k = i, ind(l)
            while i + 1 < len(ls) and not ls[i].rstrip().endswith((";", "{", ")")) or (i + 1 < len(ls) and ls[i + 1].strip() and ind(ls[i + 1]) > k):
                i += 1
            if i + 1 < len(ls) and ls[i + 1].strip() == "{" and ind(ls[i + 1]) == k:
                while not (ls[i].strip().startswith("}") and ind(ls[i]) == k):
                    i += 1
            while i + 2 < len(ls) and re.match(r"if\(\s*ec_?\s*\)", ls[i + 1].strip()) and ind(ls[i + 1]) == k:
                i += 1
                if ls[i + 1].strip() == "{":
                    while not (ls[i].strip().startswith("}") and ind(ls[i]) == k):
                        i += 1
                else:
                    i += 1
            i += 1
            items.append((a, i, k))
        items = [x for x in items if x != 0]
        for n in range(len(items) - 1):
            for d in (1, 2):
                if n + d >= len(items) or any(x is None for x in items[n:n + d + 1]):
                    continue
                x, y = items[n], items[n + d]
                if x[2] != y[2] or x[2] < 4:
                    continue
                t1, t2 = ls[x[0]].strip(), ls[y[0]].strip()
                if t1.startswith((",", ":")) or t2.startswith((",", ":")):
                    continue
                eff = r"\.(sync|trunc|write|flush|close|clear|erase|start|finish|lock|unlock|create|open|insert|splice|push_back|notify\w*|join|spill|update)\(|erase\(|write\(|read\(|verify|swap\(|store\(|ecb_|open_|state_ =|cur_|prev_|frac_|lock|for\(|if\(|buckets_?|modulus_?|used_ [+=]"
                if not (re.search(eff, t1) and re.search(eff, t2)):
                    continue
                # without effect whatever the order
                dull = r"^buffer |Size_? = |swap\(lhs|^(auto )?(modulus|buckets)_? = |^cache |^bucket (b|tmp)|^work |^ostream|^istream|^bucket_t|genlock\(|clock_type|cond_;|std::size_t \w+ = 0|^if\((waiting|edf|ekf|elf|blockSize|key_size|capacity|! \(load)"
                if re.search(dull, t1) or re.search(dull, t2):
                    continue
                if rel.startswith("detail") and (t1.endswith("delete;") or t2.endswith("delete;") or "other" in t1 or x[2] < 4):
                    continue
                yield rel, x, y, ls, ck


def swap_main():
    ms = list(swaps())
    print(len(ms), "swaps known")
    d = tempfile.mkdtemp(prefix="amut-")
    src = d + "/repo"
    for rel, x, y, ls, ck in ms:
        new = ls[:x[0]] + ls[x[1]:y[1]] + ls[x[0]:x[1]] + ls[y[1]:]
        judge(src, rel, new, ck, "swap", x[0], ls[x[0]].strip() + "  after  " + ls[y[0]].strip(), "/tmp/swapmut.log")
    shutil.rmtree(d, ignore_errors=True)


def judge(src, rel, new, ck, what, line, text, log):
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    shutil.copytree("/repo/include", src + "/include")
    open(src + "/include/nudb/" + rel, "w").write("\n".join(new))
    res, why = "MISSED", ""
    b = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I" + src + "/include", "-I" + V + "/harness", V + "/harness/kv.cpp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode:
        res = "nocompile"
    else:
        for c in ck.split():
            r = subprocess.run([sys.executable, V + "/tools/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NUDB_REPO=src))
            if r.returncode == 1:
                res = "caught " + c
                break
            if r.returncode != 0:
                e = [x for x in r.stdout.splitlines() if "error" in x.lower()][:1]
                res, why = "ERROR %s rc=%d" % (c, r.returncode), (e[0][:150] if e else r.stdout[-200:].replace("\n", " "))
                break
    with open(log, "a") as f:
        f.write("%-14s %s:%d  %s   %s\n" % (res, rel, line + 1, text, why))


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    ms = [m for m in mutations() if (sub in m[0] if sub[:1] != "!" else sub[1:] not in m[0])]
    rng = random.Random(seed)
    rng.shuffle(ms)
    print(len(ms), "mutations known")
    d = tempfile.mkdtemp(prefix="amut-")
    src = d + "/repo"
    for rel, i, old, new, what, ck in ms[:n]:
        if old == new:
            continue
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        shutil.copytree("/repo/include", src + "/include")
        p = src + "/include/nudb/" + rel
        ls = open(p).read().split("\n")
        assert ls[i] == old
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        res, why = "MISSED", ""
        b = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I" + src + "/include", "-I" + V + "/harness", V + "/harness/kv.cpp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            res = "nocompile"
        else:
            for c in ck.split():
                r = subprocess.run([sys.executable, V + "/tools/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, NUDB_REPO=src))
                if r.returncode == 1:
                    res = "caught " + c
                    break
                if r.returncode != 0:
                    e = [x for x in r.stdout.splitlines() if "error" in x.lower()][:1]
                    res, why = "ERROR %s rc=%d" % (c, r.returncode), (e[0][:150] if e else r.stdout[-200:].replace("\n", " "))
                    break
        with open("/tmp/automut.log", "a") as f:
            f.write("%-14s %s:%d  %s  ->  %s   %s\n" % (res, rel, i + 1, old.strip(), new.strip(), why))
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    swap_main() if sys.argv[1] == "swap" else main()
