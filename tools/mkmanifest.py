#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SIM = ("deterministic simulation of the real git-lfs-transfer sessions over a simulated kernel, seeded search over "
       "schedules and faults; ")
NOTE = ("Seeded search: every reported violation is real for the code and the modelled kernel, a quiet run is evidence and "
        "not proof. The session code, libgit2, std and all crates run unchanged; trusted are the POSIX model (file system with "
        "ordered metadata journal, pipes, users, clocks) and the independent protocol reading in the oracle. ")
O = {
 "C01": "object-directory invariant after every namespace change and every simulated crash",
 "C02": "answers and surviving file system against a reference store",
 "C03": "payload, answer and store compared per upload; leftovers at session end",
 "C04": "decoded download bytes against a reference store",
 "C05": "answers against the object history within each request's interval",
 "C06": "linearizability search over the history of lock, unlock and list-lock, with crashes",
 "C07": "recovery probes after kills and faults; no death under contention",
 "C08": "page traversals against the lock history",
 "C09": "lock descriptions against the acquisition that made them",
 "C10": "answers against an independent reading of the input bytes",
 "C11": "effects and answers of incomplete requests at every cut",
 "C12": "effects and disclosures by session mode",
 "C13": "every path handed to the simulated kernel",
 "C14": "exit status, standard error, panics and step bound",
 "C15": "input reads while an answer is still withheld; bounded progress",
 "C16": "system calls after the first failed output write",
 "C17": "modes at every namespace change and access by simulated users",
 "C18": "deterministic simulation of the stream seam: seeded chunking, interruption, failure and truncation against a reference codec",
 "C19": "git-at over generated repositories with injected read faults against its own fault-free answer and a model",
 "C20": "git-recent-refs against the recorded history of references under updates and faults",
 "C23": "git-recent-refs with a simulated terminal, pipe and pager process",
 "C22": "exit status, messages and output of all three programs against the causes the simulator knows (injected faults, damage, what matches)",
 "C24": "descriptors, files and memory of long and large sessions, counted at the seam whenever a session waits for a request",
 "C21": "git-at against a model of the history while simulated git programs move, pack and delete references and repack objects",
}
EXTRA = {}
CLAIM = os.environ.get("CLAIM", "").split() or ["C%02d" % k for k in range(1, 25)]
checks = []
for k in CLAIM:
    checks.append({
        "property": k,
        "quick_cmd": "python3 run.py check %s --tier quick" % k,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": ((SIM if k < "C18" or k == "C24" else "" if k == "C18" else "deterministic simulation with fault injection; ") + O[k]),
        "level": "exploration",
        "level_note": NOTE + EXTRA.get(k, ""),
    })
na = [
]
for k in ["C%02d" % k for k in range(1, 25)]:
    if k not in CLAIM:
        na.append({"property": k, "reason": "not built yet"})
m = {
 "version": 1,
 "setup_cmd": "python3 run.py setup",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks in /repo: the seam is the libc symbol boundary. The binaries' own sources are compiled as shared libraries "
          "(run.py copies the current sources of the binary crates next to an exported entry point; scutiger-core and "
          "scutiger-lfs are path dependencies on /repo) and loaded into the simulator, whose own definitions of the libc "
          "functions they call take precedence. See DESIGN.md. `python3 run.py replay FILE -v` re-executes a replay file.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
