#!/usr/bin/env python3
"""Entry point of the verification machinery (see DESIGN.md).

  run.py setup                 build everything
  run.py check C01 [--tier T]  decide one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE [-v]      re-execute a replay file
  run.py gen C01 SEED          print the scenario of a seed
"""
import fcntl, hashlib, json, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, "sim")
REPO = "/repo"
TARGET = os.path.join(SIM, "target")
BIN = os.path.join(TARGET, "release")

# quick: runs and a limit in seconds; thorough likewise
QUICK = (36000, 55.0)
THOROUGH = (3_000_000, 1500.0)
QUICK_OF = {"C18": (150000, 30.0), "C19": (90000, 40.0), "C20": (120000, 40.0), "C21": (90000, 40.0), "C22": (60000, 40.0), "C23": (90000, 40.0), "C24": (8000, 60.0)}

GUESTS = [
    ("scutiger-lfs/src", "transfer", "bin/git-lfs-transfer.rs"),
    ("scutiger-bin/src", "gitat", "bin/git-at.rs"),
    ("scutiger-bin/src", "recent", "bin/git-recent-refs.rs"),
]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(3)


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def generate():
    """The guests are the binaries' own source files plus one exported entry."""
    with open(os.path.join(SIM, "guests", "entry.rs"), "rb") as f:
        entry = f.read()
    for src, name, root in GUESTS:
        top = os.path.join(REPO, src)
        dst = os.path.join(SIM, "guests", "gen", name)
        want = set()
        for d, _, files in os.walk(top):
            for fn in files:
                p = os.path.join(d, fn)
                rel = os.path.relpath(p, top)
                with open(p, "rb") as f:
                    data = f.read()
                if rel == root:
                    data += entry
                want.add(rel)
                put(os.path.join(dst, rel), data)
        if root not in want:
            die("%s/%s is missing" % (src, root))
        for d, _, files in os.walk(dst):
            for fn in files:
                p = os.path.join(d, fn)
                if os.path.relpath(p, dst) not in want:
                    os.remove(p)


def sources_hash():
    h = hashlib.sha256()
    for c in ("scutiger-core", "scutiger-lfs", "scutiger-bin"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, c))):
            dirs.sort()
            if "/target" in d:
                continue
            for fn in sorted(files):
                if fn.endswith((".rs", ".toml")):
                    p = os.path.join(d, fn)
                    with open(p, "rb") as f:
                        h.update(p.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()


def build():
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    env.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, "run.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        generate()
        # cargo trusts modification times; the content decides here
        stamp = os.path.join(TARGET, "sources.sha256")
        now = sources_hash()
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old and old != now:
            subprocess.run(
                ["cargo", "clean", "--offline", "--release", "-p", "scutiger-core", "-p", "scutiger-lfs"],
                cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            )
        r = subprocess.run(
            ["cargo", "build", "--offline", "--release"],
            cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
            die("the build failed")
        with open(stamp, "w") as f:
            f.write(now)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


REAL_T = [
    "git-lfs-transfer: main, argument parsing, protocol processor, local storage and lock backends (scutiger-lfs, compiled from /repo, panics and overflow checks on)",
    "scutiger-core pkt-line reader and writer, error mapping",
    "Rust standard library buffering, tempfile, chrono, passwd, sha2, libgit2 (repository discovery and configuration)",
]
STUB_T = [
    "kernel: every libc call of the program goes to an in-process model of a POSIX file system (users, modes, links, umask, page cache and journal), pipes, clocks, randomness and signals",
    "the Git LFS client: a model that frames requests and decodes answers",
]
ASSUME_T = [
    "atomicity: one system call is one step; the program has no user threads of its own",
    "power loss: fsync of a file or directory commits the metadata journal up to that point (ordered metadata, as ext4 and XFS do); data not synced may be missing, cut, zero or old",
    "SIGPIPE, EINTR, short transfers, errors and clock jumps are injected at system calls only",
    "a clean batch is a sample of schedules and faults, not a proof",
]
META = {"real": REAL_T, "stub": STUB_T, "assumptions": ASSUME_T}
META18 = {
    "real": ["scutiger-core::pktline Reader and Writer, compiled from /repo"],
    "stub": ["the transport: a seeded stream that splits, delays, interrupts, fails and truncates reads and writes"],
    "assumptions": ["a clean batch is a sample, not a proof"],
}
META_GIT = {
    "real": ["git-at / git-recent-refs: the whole program, with libgit2 and PCRE2, compiled from /repo"],
    "stub": STUB_T[:1] + ["other git programs: actors that update, pack and delete references atomically"],
    "assumptions": ASSUME_T[:1] + ASSUME_T[2:],
}
META_ALL = {
    "real": META_GIT["real"] + REAL_T,
    "stub": META_GIT["stub"] + STUB_T[1:],
    "assumptions": ASSUME_T,
}


def check(prop, tier, seed, runs=None, cap=None, workers=None):
    build()
    if prop == "C18":
        exe, meta = "pkt", META18
    else:
        exe, meta = "harness", META_GIT if prop in ("C19", "C20", "C21", "C23") else META_ALL if prop == "C22" else META
    if tier == "thorough":
        n, c = THOROUGH
    else:
        n, c = QUICK_OF.get(prop, QUICK)
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(meta, f)
    try:
        return subprocess.call([
            os.path.join(BIN, exe), "check", prop, "--tier", tier, "--seed", str(seed),
            "--runs", str(runs or n), "--cap", str(cap or c), "--workers", str(workers or max(2, min(8, os.cpu_count() or 2))),
            "--verif", VERIF, "--meta", f.name,
        ])
    finally:
        os.unlink(f.name)


def opt(args, name, default=None):
    return args[args.index(name) + 1] if name in args else default


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "setup":
        build()
        return 0
    if a[0] == "check":
        tier = opt(a, "--tier", os.environ.get("VERIF_TIER") or "quick")
        seed = int(opt(a, "--seed", os.environ.get("VERIF_SEED") or "1"))
        r = check(a[1], tier, seed, opt(a, "--runs"), opt(a, "--cap"), opt(a, "--workers"))
        return r if r in (0, 1) else 3
    if a[0] == "replay":
        build()
        with open(a[1]) as f:
            exe = "pkt" if json.load(f)["property"] == "C18" else "harness"
        return subprocess.call([os.path.join(BIN, exe), "replay"] + a[1:])
    if a[0] == "gen":
        build()
        exe = "pkt" if a[1] == "C18" else "harness"
        return subprocess.call([os.path.join(BIN, exe), "gen"] + a[1:])
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
