#!/usr/bin/env python3
"""A mutation campaign over scratch copies of /repo and /verif (not a check).

  mutate.py list FILE...            number the mutants
  mutate.py run OUT [START [STEP]]  build, test and check them, one line each

Works in /tmp/mt/repo and /tmp/mt/verif, which it makes from /repo and /verif.
"""
import json, os, re, shutil, subprocess, sys

TOP = "/tmp/mt"
FILES = {
    "scutiger-lfs/src/processor.rs": "lfs",
    "scutiger-lfs/src/backend/local.rs": "lfs",
    "scutiger-lfs/src/bin/git-lfs-transfer.rs": "lfs",
    "scutiger-core/src/pktline.rs": "pkt",
    "scutiger-core/src/errors.rs": "err",
    "scutiger-bin/src/bin/git-at.rs": "at",
    "scutiger-bin/src/bin/git-recent-refs.rs": "refs",
}
CHECKS = {
    "lfs": "C10 C01 C05 C06 C08 C09 C07 C14 C13 C03 C04 C02 C17 C12 C15 C16 C11".split(),
    "pkt": "C18 C10 C01 C04 C14 C15 C11 C16 C03".split(),
    "err": "C10 C14 C22 C19 C04 C03 C20 C23".split(),
    "at": "C22 C21 C19".split(),
    "refs": "C20 C23 C22".split(),
}
OPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=])<=", "<"), (r">=", ">"),
    (r"(?<=[\w\)\]] )<(?= [\w&])", "<="), (r"(?<=[\w\)\]] )>(?= [\w&])", ">="),
    (r"&&", "||"), (r"\|\|(?= )", "&&"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 4\b", ""),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bOk\(None\) => continue", "Ok(None) => return Err(Error::new_simple(ErrorKind::Conflict))"),
    (r"(?<![\w.])!(?=[a-z]\w*[.(])", ""),
    (r"(?<![\w.&x])(\d{1,6})(?![\w.])", "+1"), (r"(?<![\w.&x])(\d{1,6})(?![\w.])", "-1"),
    (r"\bNotFound\b", "PermissionDenied"), (r"\bAlreadyExists\b", "NotFound"),
    (r"\bUnexpectedEof\b", "BrokenPipe"),
    (r"\bis_file\b", "exists"), (r"\bcreate_new\b", "create"),
    (r"\bcontinue;", "return None;"), (r"\bcontinue\b", "break"),
    (r"\+=", "="), (r" \+ ", " - "), (r" - ", " + "),
    (r" & ", " | "), (r" \| (?=[\(\d!])", " & "),
    (r"\bSome\((\w+)\) => (\d)", r"None => \2"),
    (r"\.filter\(.*\)$", ""), (r"\.take\([^()]*\)", ""), (r"\.skip_while\(", ".filter(|_| true).skip_while("),
    (r"Err\(e\) => return Err\(e(\.into\(\))?\)", "Err(_) => return Ok(None)"),
    (r"Err\(e\) => Err\(e(\.into\(\))?\)", "Err(_) => Ok(None)"),
]


def lines_of(path):
    src = open(path).read().split("\n")
    out = []
    skip = None
    for n, l in enumerate(src):
        if "#[cfg(test)]" in l and n + 1 < len(src) and src[n + 1].startswith("mod "):
            break
        if "cfg(windows)" in l or "cfg(not(unix))" in l:
            skip = re.match(r" *", l).end()
            continue
        if skip is not None:
            ind = re.match(r" *", l).end()
            if l.strip() == "}" and ind == skip or l.strip().endswith("{}"):
                skip = None
            continue
        t = l.strip()
        if t.startswith("//") or t.startswith("#[") or t.startswith("use ") or t.startswith("extern ") or not t:
            continue
        out.append((n, l))
    return src, out


def mutants(repo, files):
    for f in files:
        src, ls = lines_of(os.path.join(repo, f))
        for n, l in ls:
            seen = {l}
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if rep in ("+1", "-1"):
                        if rep == "-1" and m.group(1) == "0":
                            continue
                        new = l[: m.start()] + str(int(m.group(1)) + int(rep)) + l[m.end():]
                    else:
                        new = l[: m.start()] + m.expand(rep) + l[m.end():]
                    if new not in seen:
                        seen.add(new)
                        yield f, n, new
            t = l.strip()
            # statements on one line: dropped, or their error ignored
            if re.match(r"^[\w:.&<>]+[(.].*;$", t) and not t.startswith(("let ", "return", "use ")):
                ind = l[: len(l) - len(l.lstrip())]
                for new in (ind + ";", l.replace("?;", ".ok();") if t.endswith("?;") else None):
                    if new and new not in seen:
                        seen.add(new)
                        yield f, n, new
            # one match arm on one line
            if re.match(r"^(\(?(Ok|Err|Some|None)\b|\(b\"|b\"|ErrorKind::|\| ErrorKind::).* => .*,$", t) or re.match(r"^\| ErrorKind::\w+$", t):
                yield f, n, ""


def prepare():
    os.makedirs(TOP, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "/repo/", TOP + "/repo/"]) if shutil.which("rsync") else None
    if not os.path.exists(TOP + "/repo"):
        subprocess.run(["cp", "-a", "/repo", TOP + "/repo"], check=True)
    if not os.path.exists(TOP + "/verif"):
        os.makedirs(TOP + "/verif")
    subprocess.run("cd /verif && cp -a run.py sim known-findings* properties.jsonl MANIFEST.json %s/verif/ 2>/dev/null" % TOP, shell=True)
    subprocess.run(
        "cd %s/verif && sed -i 's#\"/repo\"#\"%s/repo\"#' run.py && find sim -name Cargo.toml -not -path '*/target/*' | xargs sed -i 's#\"/repo/#\"%s/repo/#'"
        % (TOP, TOP, TOP), shell=True, check=True)


def sh(cmd, t):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


ENV = "HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER= CARGO_TARGET_DIR=%s/repo/target" % TOP


def one(f, n, new, runs):
    p = os.path.join(TOP, "repo", f)
    src = open(p).read().split("\n")
    old = src[n]
    src[n] = new
    open(p, "w").write("\n".join(src))
    try:
        rc, out = sh("cd %s/repo && env %s cargo test --workspace --offline -- --test-threads 8" % (TOP, ENV), 200)
        if rc != 0:
            return "build" if "could not compile" in out else "tests"
        for c in CHECKS[FILES[f]]:
            k = runs * (3 if FILES[f] in ("at", "refs", "pkt") else 1)
            rc, out = sh("cd %s/verif && python3 run.py check %s --seed 5 --runs %d --cap 60" % (TOP, c, k), 400)
            if rc == 1:
                return "caught " + c
            if rc != 0:
                return "error %s %s" % (c, out[-300:])
        return "SURVIVED"
    finally:
        src[n] = old
        open(p, "w").write("\n".join(src))


def main():
    if sys.argv[1] == "list":
        for i, (f, n, new) in enumerate(mutants("/repo", sys.argv[2:] or FILES)):
            print(i, f, n + 1, new.strip())
        return
    prepare()
    out = open(sys.argv[2], "a")
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    step = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    for i, (f, n, new) in list(enumerate(mutants(TOP + "/repo", FILES)))[start::step]:
        old = open(os.path.join(TOP, "repo", f)).read().split("\n")[n]
        r = one(f, n, new, 2500)
        out.write("%d %s:%d %s  [%s -> %s]\n" % (i, f, n + 1, r, old.strip(), new.strip()))
        out.flush()


main()
