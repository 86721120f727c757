#!/usr/bin/env python3
"""Development aid: which basic blocks of the code under test do the campaigns reach?
   coverage.py run P01 P02 ...   runs the checks with block tracing (build dir /tmp/cov)
   coverage.py report [file-substring]  lists source lines with a block that no run reached"""
import glob, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/cov/build"


def blocks(exe):
    out = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE).stdout.decode()
    ret, nxt = [], False
    for l in out.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)", l)
        if not m:
            continue
        if nxt:
            ret.append(int(m.group(1), 16))
            nxt = False
        if m.group(2).startswith("call") and "<__sanitizer_cov_trace_pc>" in m.group(3):
            nxt = True
    return ret


if sys.argv[1] == "run":
    env = dict(os.environ, DST_COV="1", DST_BUILD=D)
    for p in sys.argv[2:]:
        subprocess.run([sys.executable, V + "/dst/check.py", "--property", p], env=env)
else:
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    hit, all_ = {}, {}
    for cov in glob.glob(D + "/*/*.cov"):
        exe = cov[:-4]
        if not os.path.exists(exe):
            continue
        data = open(cov, "rb").read()
        bl = blocks(exe)
        r = subprocess.run(["addr2line", "-f", "-e", exe], input="\n".join(hex(a - 1) for a in bl).encode(), stdout=subprocess.PIPE).stdout.decode().splitlines()
        for i, a in enumerate(bl):
            fn, ln = r[2 * i], r[2 * i + 1].split(" ")[0]
            if "/repo/" not in ln and not ln.startswith("/repo"):
                continue
            k = (ln.split("/repo/")[1].split(":")[0], int(ln.split(":")[1]) if ln.split(":")[1].isdigit() else 0, fn)
            off = a - 0x400000
            h = data[off] if off < len(data) else 0
            # within one exe, block order in a line identifies it
            all_.setdefault(k, [0, 0])
            all_[k][0] += 1
            all_[k][1] += 1 if h else 0
            # remember best ratio over executables
            o = hit.setdefault(k, set())
            if h:
                o.add(off if exe.endswith("/exe") and "/gen-" in exe else ("l",))
    files = {}
    for (f, l, fn), (n, h) in sorted(all_.items()):
        files.setdefault(f, []).append((l, fn, n, h))
    for f in sorted(files):
        if flt not in f:
            continue
        t = len(files[f])
        z = [x for x in files[f] if x[3] == 0]
        print("%s: %d of %d lines with blocks reached" % (f, t - len(z), t))
        if flt:
            src = open("/repo/" + f, errors="replace").read().splitlines()
            for l, fn, n, h in z:
                print("   %4d %s: %s" % (l, fn, src[l - 1].strip() if l <= len(src) else ""))
