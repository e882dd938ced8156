"""Source of properties.jsonl (run: python tools/mkprops.py > properties.jsonl)."""
import json

S = "src/auditwheel/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": m, "where": S + files[0]} if isinstance(m, str) else m for m in mechanism]}
    if observe_at:
        a["observe_at"] = observe_at
    a["hook_needed"] = None
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a,
    })


prop("C01", "A wheel is published in the wheel directory all at once or not at all",
     "At every instant of an `auditwheel repair` run, including after the process is killed at any point, every "
     "`*.whl` in the wheel directory is either exactly what was there before the run or a complete, finished output "
     "wheel. A run that ends in failure (system call error, full disk, failing patchelf/strip, allocation failure, "
     "interrupt, refusal) publishes no half-repaired wheel and leaves an older wheel of the same name intact; when "
     "a run exits 0, each wheel it was given has its complete output in the wheel directory, and wheels finished "
     "earlier in a failed batch stay.",
     ["crash_points", "fault_sequences", "inputs"],
     "every wheel and option set, every kill point, every failing operation or tool, every torn or short write",
     "the tests run fault-free; the states between two system calls and the outcome of each possible failure are "
     "never observed",
     ["wheeltools.py", "tools.py", "repair.py", "main_repair.py"],
     ["InWheel.__exit__ writes the output", "dir2zip", "copy2 of a pure wheel", "out_wheel handling in repair_wheel"],
     ["contents of the wheel directory"])

prop("C02", "Input wheels, host files and bystanders are never modified",
     "Whatever happens during `repair`, `show` or `lddtree` (success, failure, crash or interrupt at any point, "
     "concurrent runs), the input wheels, the host's libraries and configuration, and every file in the wheel "
     "directory that is not one of the run's own outputs (an input repaired in place under its own name is one) keep their bytes, permissions, modification times and "
     "names, at every instant and not only at the end. Nothing is created outside the wheel directory and the "
     "temporary directory, and `show` and `lddtree` change nothing at all outside the temporary directory.",
     ["crash_points", "fault_sequences", "inputs"],
     "every wheel, host and option set, every fault and kill point",
     "a test compares a few files after a successful run; transient or fault-only damage is invisible to it",
     ["repair.py", "patcher.py", "wheeltools.py", "tools.py"],
     ["copylib copies before patching", "patcher and strip act only on unpacked copies", "zip2dir extracts into a "
      "temporary directory"],
     ["every file outside the temporary directory"])

prop("C03", "A successful exit means the fault-free result",
     "If `repair` exits 0 although system calls, helper programs or allocations failed, writes were short or the run "
     "was disturbed, the wheels it published are the ones the undisturbed run publishes: no member missing, "
     "truncated, unpatched or unstripped, and the same name. A failure the command cannot make up for is reported by "
     "a non-zero exit, never by a silently degraded wheel. The documented exceptions only warn: a package database "
     "that cannot be queried costs SBOM entries, an unreadable loader configuration file is skipped, and a musl "
     "loader that cannot be run leaves the host's musl version unknown.",
     ["fault_sequences", "inputs"],
     "every fault at every operation of every run: errno on open/read/write/mkdir/rename/chmod/unlink/readdir, full "
     "disk, short transfers, failing patchelf/strip, MemoryError, interrupts",
     "tests inject no faults, so an error swallowed on any of hundreds of operations goes unnoticed",
     ["wheeltools.py", "tools.py", "repair.py", "patcher.py", "elfutils.py", "lddtree.py", "wheel_abi.py"],
     ["error propagation through unpack, analysis, grafting, patching, stripping and repacking"])

prop("C04", "RECORD of a published wheel matches its contents exactly",
     "In every wheel `repair` publishes after rewriting it, RECORD lists each file of the archive exactly once with "
     "its true sha256 and size, lists nothing that is not in the archive, and leaves its own row blank; the archive "
     "has no duplicate members and every member reads back. A stale RECORD.jws signature is gone, and the RECORD "
     "describes the files as they are after patching, stripping and SBOM generation.",
     ["inputs", "fault_sequences", "schedules"],
     "every wheel layout and option set, under short transfers, full disks, host files replaced mid-run and concurrent "
     "runs",
     "only sampled wheels are checked and never while the environment misbehaves",
     ["wheeltools.py", "tools.py"],
     ["rewrite_record", "dir2zip", "walk"],
     ["RECORD and members of the output archive"])

prop("C05", "Repair preserves the wheel's payload",
     "Every file of the input wheel is in the output with the same bytes and the same permission bits (at least "
     "owner read/write), except that RECORD and the platform tags in WHEEL are rewritten, ELF files that needed "
     "external libraries are patched (and, with --strip, stripped), and ELF programs in the data scripts directory "
     "move to `<name>.scripts/` behind an executable Python shim that runs them. The only additions are grafted "
     "libraries in the lib directory, those moved programs and the SBOM; a patched ELF keeps its exported, undefined "
     "and versioned symbols, soname, interpreter and every other dependency, and all other WHEEL headers stay (Root-Is-Purelib becomes false when a wheel "
     "tagged `any` gets platform tags).",
     ["inputs", "configurations", "schedules"],
     "every wheel content (unusual names, modes, empty files, nested directories, scripts), option set, directory "
     "enumeration order and transfer size",
     "a handful of sample wheels is repaired; most layouts, modes and enumeration orders are never seen",
     ["repair.py", "tools.py", "wheeltools.py", "patcher.py"],
     ["zip2dir/dir2zip round trip", "_replace_elf_script_with_shim", "patcher.apply_updates", "add_platforms"],
     ["members of the output archive"])

prop("C06", "Grafting leaves a self-contained wheel",
     "In a wheel `repair` publishes, each dependency of each ELF file that the target policy does not allow, and that "
     "was not excluded, is found inside the wheel by the dynamic loader from the file's own rpath, under the name the "
     "file asks for, and is a copy of exactly the host library that dependency resolved to; this holds transitively "
     "for the grafted libraries. Grafted copies carry a content hash in their name and soname, no dependency on "
     "libpython remains in manylinux/musllinux wheels, libraries the policy allows are not grafted, and no rewritten "
     "rpath points outside the wheel; if a needed library cannot be found the wheel is refused.",
     ["inputs", "configurations"],
     "every dependency graph (chains, diamonds, cycles, shared names), rpath layout, host search path, --exclude and "
     "-L choice",
     "the graphs tests contain are few and the integration tests need docker images",
     ["repair.py", "patcher.py", "lddtree.py", "policy/__init__.py", "wheel_abi.py"],
     ["copylib", "second pass over soname_map", "append_rpath_within_wheel", "lddtree_external_references"],
     ["DT_NEEDED/DT_SONAME/DT_RPATH of the output's ELF files"])

prop("C07", "Repair claims only platform tags the wheel satisfies",
     "The platform tags in the published wheel's filename equal those in its WHEEL file and are the requested policy "
     "(or, for auto, the detected one) with its aliases, the generic linux tag being replaced and other tags the input "
     "carried left alone. Every manylinux or musllinux tag so added is truly satisfied: the versioned symbols of all "
     "ELF files of the claimed architecture, own and grafted, are within the policy, extension modules and programs "
     "use no black-listed symbol and, unless the check is disabled, need no higher ISA level, and no UCS2 or fpectl "
     "symbol is used. When that can be achieved the command succeeds; when it cannot, it exits non-zero and publishes nothing.",
     ["inputs", "configurations", "fault_sequences"],
     "every wheel, policy, architecture and libc, and every fault during analysis",
     "the decision combines symbol versions of the wheel and of grafted libraries, blacklists, ISA notes and "
     "architectures; tests sample a few combinations without faults",
     ["main_repair.py", "wheel_abi.py", "policy/__init__.py", "wheeltools.py", "repair.py"],
     ["policy comparisons in execute", "analyze_wheel_abi", "add_platforms"],
     ["filename, WHEEL and ELF files of the output; exit status"])

prop("C08", "Repair output is reproducible",
     "With SOURCE_DATE_EPOCH set, repairing the same wheel on a host with the same contents yields a byte-identical "
     "file, whatever the directory enumeration order, interpreter hash seed, temporary directory names, current "
     "directory, clock, time zone, leftovers of other runs, I/O transfer sizes and process interleaving are. "
     "Without it, only the timestamps of the archive members may differ.",
     ["schedules", "configurations"],
     "every setting of the nondeterminism sources under the simulator's control, compared pairwise on the same inputs",
     "a test compares two runs on one machine, in one process, with one hash seed and one directory order",
     ["tools.py", "wheeltools.py", "repair.py", "sboms.py", "policy/__init__.py", "lddtree.py"],
     ["walk sorts", "date_time from SOURCE_DATE_EPOCH", "iteration over sets", "glob order"],
     ["bytes of the published wheel"])

prop("C09", "Repairing several wheels at once equals repairing them one by one",
     "`auditwheel repair A B C` publishes exactly the wheels that separate invocations publish, in any order and with "
     "any mix of architectures, names and dependencies; the outcome for one wheel does not depend on which wheels "
     "were processed, successfully or not, before it in the same process. If one wheel is refused or fails, the "
     "earlier ones are complete, the later ones are untouched and the exit status is non-zero.",
     ["histories", "inputs", "fault_sequences"],
     "every batch composition and order, including repeated and failing wheels and faults during one of them",
     "process-wide caches and current-directory changes only matter across wheels; tests process one wheel at a time",
     ["main_repair.py", "lddtree.py", "wheel_abi.py", "tmpdirs.py", "_vendor/whichprovides/__init__.py"],
     ["lru_cache'd analysis and loader paths", "os.chdir in InTemporaryDirectory", "per-wheel loop in execute"],
     ["module-level caches", "current directory"])

prop("C10", "Concurrent runs sharing directories do not interfere",
     "Several auditwheel processes running at the same time on different or identical wheels with a common wheel "
     "directory, temporary directory and host each exit with the status and publish the bytes they would alone; none "
     "fails because of another one's directories, temporary files or outputs, and killing one at any point does not "
     "affect the others. When several publish the same name the survivor is complete.",
     ["schedules", "crash_points"],
     "every interleaving of the processes' file system operations, with and without kills",
     "tests run one process; races on creating the wheel directory, on temporary names and on the output file need "
     "particular interleavings",
     ["main_repair.py", "wheeltools.py", "tools.py", "tmpdirs.py"],
     ["wheel_dir creation", "output archive creation", "TemporaryDirectory use"],
     ["shared wheel directory"])

prop("C11", "No residue after success, failure or interrupt",
     "Once a command has ended by itself (success, refusal, any error at any operation, a failing helper program or "
     "Ctrl-C at any point), no temporary file or directory it created is left in the temporary directory, the wheel "
     "directory, the input directory or the current directory, and using the package as a library the current "
     "directory is the one it started in. This holds whenever the clean-up calls themselves do not fail.",
     ["fault_sequences", "crash_points", "inputs"],
     "every failing operation, tool failure, allocation failure and interrupt point of repair, show and lddtree",
     "clean-up on the error path of each individual operation is not exercised",
     ["tmpdirs.py", "wheeltools.py", "condatools.py", "wheel_abi.py", "repair.py"],
     ["InTemporaryDirectory.__enter__/__exit__", "InWheel.__exit__"],
     ["temporary directory", "current directory"])

prop("C12", "The verdict of show is exact, or an error",
     "`auditwheel show` names the highest-priority policy whose symbol versions, library white-list, symbol "
     "black-list, ISA level and Python ABI rules the wheel meets, and lists exactly the external libraries, versioned "
     "symbols and eliminations that follow from the ELF files and the host; `--json` output conforms to the published "
     "schema and agrees. Shown under the "
     "same conditions, a wheel that repair made meets at least the tags repair gave it. If reading the wheel or a library fails, the command exits non-zero: except for unreadable "
     "loader configuration, which is only warned about, it never reports a verdict or a dependency list that differs "
     "from the fault-free one.",
     ["inputs", "configurations", "fault_sequences"],
     "every wheel and host the generator can express for each architecture and libc, and every fault on every "
     "operation",
     "the reference is a formula over policy data, symbol versions and dependency closure; tests pin single examples "
     "and no faults",
     ["wheel_abi.py", "main_show.py", "policy/__init__.py", "elfutils.py", "lddtree.py"],
     ["analyze_wheel_abi", "lddtree_external_references", "versioned_symbols_policy", "_output_json"],
     ["stdout and exit status of show"])

prop("C13", "Library resolution follows the documented search order and terminates",
     "Each dependency found by `lddtree`, `show` and `repair` is the first file of the right class, byte order, "
     "machine and architecture in the search order: the main object's and the file's own RPATH/RUNPATH (RPATH ignored "
     "where RUNPATH exists, $ORIGIN expanded to the file's directory), AUDITWHEEL_LD_LIBRARY_PATH then "
     "LD_LIBRARY_PATH, then ld.so.conf with its includes (for musl: its path file) and the trusted directories (or exactly --ldpaths instead of "
     "those); symbolic links are followed to the real file. The walk is complete, visits each name once and "
     "terminates for cyclic dependencies, symbolic link loops and any directory order.",
     ["inputs", "configurations", "schedules"],
     "every host layout of directories, links, decoy libraries of other architectures, loader configuration and "
     "environment, in any enumeration order",
     "resolution depends on the whole host file system; tests use the one host they run on",
     ["lddtree.py", "wheel_abi.py"],
     ["find_lib", "readlink", "parse_ld_so_conf", "load_ld_paths", "ldd recursion"],
     ["reported library paths"])

prop("C14", "Retrying converges and repairing twice changes nothing",
     "After a run was killed or failed at any point, running the same command again without faults succeeds exactly "
     "when a first run would have and leaves the same wheels, whatever the earlier attempts left behind. Repairing an "
     "already repaired wheel for the same platform with the same options (host paths given to `--exclude` aside) succeeds and yields the same name and the same members: nothing is "
     "grafted again, renamed again or added again.",
     ["crash_points", "histories"],
     "every crash or failure point of the earlier attempts, any number of attempts, every repaired wheel",
     "tests never crash a run and restart it on what is left",
     ["wheeltools.py", "repair.py", "main_repair.py", "tools.py"],
     ["output file creation over leftovers", "copylib's hash suffix check", "add_platforms de-duplication"],
     ["wheel directory and temporary directory after a crash"])

prop("C15", "Queued ELF edits are applied exactly, once, to the right file",
     "For every sequence of queued ELF edits (new soname, replaced or removed dependencies, rpath set or cleared, file "
     "moved elsewhere), made through any alias of a file's path, applying them leaves each file exactly as its edits "
     "require (a set rpath prevails over a cleared one, the last one set wins) and touches no other file, and asking "
     "for the rpath answers as if they were already applied. An edit that conflicts with a queued one, or that the "
     "Android API level does not support, is refused without a trace. A failing patchelf makes applying fail, the "
     "patcher `none` refuses any edit, and no edit is ever applied twice.",
     ["histories", "fault_sequences"],
     "every call sequence over several files, links and renames, with patchelf failing at any invocation",
     "unit tests mock patchelf and compare argument lists of short sequences",
     ["patcher.py"],
     ["ElfPatcher._updates queue", "_needed_overlap", "apply_updates"],
     ["ELF dynamic sections after apply_updates"])

prop("C16", "The SBOM names exactly the grafted packages",
     "When the host's package manager knows who owns grafted libraries, the published wheel contains a valid "
     "CycloneDX document whose first component is the wheel under its published file name and whose other components "
     "are exactly the owning packages with their true names, versions and package URLs, each once per library and all "
     "referenced as dependencies, besides the components that the SBOM of an earlier repair of the wheel listed. A failing or absent package manager can only make entries missing, never wrong, and "
     "no SBOM is written when nothing grafted has an owner.",
     ["inputs", "fault_sequences", "configurations"],
     "every ownership relation, package manager (dpkg, rpm, apk, apt-file), and failure of any query",
     "tests stub the lookup; failing and partial queries are not covered",
     ["sboms.py", "repair.py", "_vendor/whichprovides/__init__.py"],
     ["create_sbom_for_wheel", "whichprovides"],
     ["sboms/auditwheel.cdx.json of the output"])

prop("C17", "Policy tables are internally consistent",
     "A policy of lower priority allows at least the libraries and symbol versions every higher-priority policy of "
     "the same libc and architecture allows, names and aliases are unique, and the generic linux policy is always the "
     "lowest.",
     ["configurations"],
     "all policies of all libcs and architectures",
     "tests sample policies; the relation must hold for every pair",
     ["policy/__init__.py", "policy/manylinux-policy.json", "policy/musllinux-policy.json"],
     ["_validate_pep600_compliance", "WheelPolicies.__init__"])

prop("C18", "Command line beats environment beats default",
     "For --plat, --zip-compression-level and --patcher the command line wins over the AUDITWHEEL_* variable, which "
     "wins over the default, and an invalid value from either source is an error that names the source.",
     ["configurations"],
     "every combination of option, variable and default",
     "tests sample a few combinations",
     ["tools.py", "main_repair.py"],
     ["EnvironmentDefault"])

prop("C19", "Architecture levels form a consistent order",
     "is_subset and is_superset are converse partial orders within one baseline architecture and never relate "
     "different baselines; baseline is idempotent.",
     ["inputs"],
     "all pairs and triples of architectures",
     "tests sample pairs",
     ["architecture.py"],
     ["Architecture.is_subset", "Architecture.is_superset", "Architecture.baseline"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
