#!/usr/bin/env python3
"""Mutation testing of the checks: small textual changes to /repo/src, one at a time, in private copies.
   mutate.py list                        all mutants
   mutate.py run OUT.jsonl N SEED W      N mutants drawn with SEED, in W workers (a mutant already in OUT is skipped)
A mutant that does not build or that /repo's own tests catch is dropped; the others go through every check with few runs."""
import hashlib, json, os, random, re, subprocess, sys, tempfile, glob

OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " = "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
    (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\bwhile (?!let)", "while !"),
    (r" as u64\b", " as u32 as u64"), (r" as usize\b", " as u16 as usize"), (r" as u32\b", " as u16 as u32"), (r" as i64\b", " as i32 as i64"),
    (r"SeekFrom::Start", "SeekFrom::Current"), (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"), (r"Ordering::Equal", "Ordering::Less"),
    (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "wrapping_add"),
    (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"(?<![\w.])([2-9]|\d\d+)\b", "+1"), (r"(?<![\w.])([2-9]|\d\d+)\b", "-1"),
    (r"0x[0-9a-fA-F_]+", "+1"), (r"\.\.=", ".."), (r"\.\.(?![.=])(?=\w)", "..="), (r"\.ok_or\(.*?\)\?", ".unwrap_or_default()"),
    (r" % ", " / "), (r" / ", " * "), (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "), (r"return Ok\(false\)", "return Ok(true)"), (r"Ok\(true\)", "Ok(false)"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.rev\(\)", ""), (r"read_le::", "read_be::"), (r"LittleEndian", "BigEndian"),
    (r"\.clone\(\)", ".clone()"),
]

def mutants():
    out = []
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(f, "/repo")
        if rel in ("src/lib.rs", "src/error.rs", "src/helpers.rs"):
            continue
        lines = open(f).read().split("\n")
        depth_doc = False
        for n, l in enumerate(lines):
            if "#[cfg(test)]" in l:
                break
            s = l.strip()
            if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "extern", "assert", "debug_assert")):
                continue
            if s.startswith(("fn ", "pub fn", "pub(crate) fn", "impl", "where", "T:")):
                continue
            code = re.sub(r'//.*', '', l)
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    t = m.group(0)
                    if rep in ("+1", "-1") :
                        if '"' in code[:m.start()]:
                            continue
                        try:
                            v = int(t.replace("_", ""), 0)
                        except ValueError:
                            continue
                        v += 1 if rep == "+1" else -1
                        r = hex(v) if t.startswith("0x") else str(v)
                    else:
                        r = rep
                    if r == t:
                        continue
                    new = code[:m.start()] + r + code[m.end():]
                    out.append((rel, n, l, new))
            # statements of their own
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "const", "pub ", "static", "type", "*/")) and "=>" not in s and s.count("(") == s.count(")") and not s.startswith("."):
                prev = lines[n - 1].strip()
                if prev.endswith((";", "{", "}", "")) or prev.startswith("//"):
                    out.append((rel, n, l, re.match(r"\s*", l).group(0) + "();"))
    res, seen = [], set()
    for m in out:
        k = hashlib.sha1(repr(m).encode()).hexdigest()[:10]
        if k not in seen:
            seen.add(k)
            res.append((k,) + m)
    return res

PROPS = "C11 C10 C12 C01 C02 C09 C08 C13 C16 C04 C05 C07 C06 C14 C03 C15 C17".split()

def sh(cmd, cwd, timeout=300, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, shell=isinstance(cmd, str), env=env, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)

def worker(todo, outfile, runs):
    env = dict(os.environ, PATH="/usr/local/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    for k, rel, n, old, new in todo:
        p = "/repo/" + rel
        src = open(p).read()
        lines = src.split("\n")
        assert lines[n] == old
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        rec = dict(id=k, file=rel, line=n + 1, old=old.strip(), new=new.strip())
        try:
            rc, o = sh("ulimit -v 8000000; timeout 60 cargo test --lib --offline -q", "/repo", env=env)
            if rc:
                rec["res"] = "nobuild" if "error[" in o or "error:" in o and "test failed" not in o else "tests"
                if rec["res"] == "nobuild" and "test failed" in o:
                    rec["res"] = "tests"
                continue
            rc, o = sh("here=/verif; . /verif/build.sh", "/verif", 600, env)
            if rc:
                rec["res"] = "simbuild"
                continue
            caught = []
            for q in PROPS:
                if q == "C15":
                    continue
                e = dict(env, VERIF_SEED="1")
                rc, o = sh(["/verif/sim/target/release/ntfs-sim", "check", q, "--runs", str(runs), "--threads", "2", "--dir", "/verif"], "/verif", 200, e)
                if rc:
                    m = re.search(r"C\d\d seed .*", o)
                    caught.append((q, rc, m.group(0)[:200] if m else o[-200:]))
                    if len(caught) >= 2:
                        break
            rec["res"] = "caught" if caught else "MISSED"
            rec["by"] = caught
        finally:
            open(p, "w").write(src)
            with open(outfile, "a") as f:
                f.write(json.dumps(rec) + "\n")

def main():
    if sys.argv[1] == "list":
        for m in mutants():
            print(m[0], m[1], m[2] + 1, m[3].strip(), "=>", m[4].strip())
        return
    if sys.argv[1] == "worker":
        worker(json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]))
        return
    out, n, seed, w = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    runs = int(sys.argv[6]) if len(sys.argv) > 6 else 4000
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    ms = mutants()
    random.Random(seed).shuffle(ms)
    ms = [m for m in ms[:n] if m[0] not in done]
    procs, works = [], []
    for i in range(w):
        work = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
        works.append(work)
        os.makedirs(work + "/repo"); os.makedirs(work + "/verif")
        subprocess.run(f"cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {work}/repo; cp -a /verif/. {work}/verif/; find {work}/verif/sim/target-nostd -delete", shell=True, check=True)
        json.dump(ms[i::w], open(work + "/todo.json", "w"))
        inner = f"mount --bind {work}/repo /repo && mount --bind {work}/verif /verif && exec python3 /verif/tools/mutate/mutate.py worker {work}/todo.json {os.path.abspath(out)} {runs}"
        procs.append(subprocess.Popen(["unshare", "-rm", "bash", "-c", inner]))
    for p in procs:
        p.wait()
    for work in works:
        subprocess.run(["find", work, "-delete"])

main()
