"""Build hbdrive from /repo's current working tree (no reuse of /repo's own build products).

The core is compiled as eight unity chunks in parallel (about 10 s); a chunk that does not compile
as a unity (for example two files that define the same file-local name) is compiled file by file.
The binary is cached by the hash of everything it is made of.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HB_REPO", "/repo")
SRC = os.path.join(REPO, "core", "src")
HARNESS = os.path.join(VERIF, "harness", "hbdrive.cpp")
BUILD = os.path.join(VERIF, "build")
NCHUNK = 8
FLAGS = ["-std=c++23", "-O1", "-DNDEBUG", "-w", "-DHYDROBRICKS_MAJOR_VERSION=0",
         "-DHYDROBRICKS_MINOR_VERSION=0", "-DHYDROBRICKS_PATCH_VERSION=0", "-I/usr/include/eigen3"]
LIBS = ["-lyaml-cpp", "-lnetcdf"]


class BuildError(Exception):
    pass


def _tree():
    cpps, heads, dirs = [], [], []
    for d, sub, files in os.walk(SRC):
        sub.sort()
        rel = os.path.relpath(d, SRC)
        if rel == "app" or rel.startswith("app" + os.sep):
            continue
        dirs.append(d)
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                cpps.append(os.path.join(d, f))
            elif f.endswith((".h", ".hpp", ".ipp", ".inl")):
                heads.append(os.path.join(d, f))
    return cpps, heads, dirs


def _hash(files):
    h = hashlib.sha256()
    h.update(" ".join(FLAGS).encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _cc(src, obj, inc):
    p = subprocess.run(["g++"] + FLAGS + inc + ["-c", src, "-o", obj], capture_output=True, text=True)
    return p.returncode, p.stderr


def build(verbose=False):
    cpps, heads, dirs = _tree()
    key = _hash(cpps + heads + [HARNESS])
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "hbdrive-" + key)
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):      # keep only a few old binaries
            if f.startswith("hbdrive-"):
                p = os.path.join(BUILD, f)
                if len([g for g in os.listdir(BUILD) if g.startswith("hbdrive-")]) > 6:
                    os.remove(p)
        tmp = os.path.join(BUILD, "obj-" + key)
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        inc = ["-I" + d for d in dirs]
        chunks = [cpps[i::NCHUNK] for i in range(NCHUNK)]
        jobs = []
        for i, ch in enumerate(chunks):
            if not ch:
                continue
            u = os.path.join(tmp, "unity%d.cpp" % i)
            with open(u, "w") as f:
                for c in ch:
                    f.write('#include "%s"\n' % c)
            jobs.append((u, os.path.join(tmp, "unity%d.o" % i), ch))
        objs = []
        with cf.ThreadPoolExecutor(NCHUNK + 1) as ex:
            hobj = os.path.join(tmp, "hbdrive.o")
            hf = ex.submit(_cc, HARNESS, hobj, inc)
            futs = [(j, ex.submit(_cc, j[0], j[1], inc)) for j in jobs]
            retry = []
            for j, f in futs:
                rc, err = f.result()
                if rc == 0:
                    objs.append(j[1])
                else:
                    retry.append(j)
            rc, err = hf.result()
            if rc != 0:
                raise BuildError("harness does not compile:\n" + err[-4000:])
            objs.append(hobj)
            singles = []
            for j in retry:
                for c in j[2]:
                    o = os.path.join(tmp, re.sub(r"\W", "_", os.path.relpath(c, SRC)) + ".o")
                    singles.append((c, o, ex.submit(_cc, c, o, inc)))
            for c, o, f in singles:
                rc, err = f.result()
                if rc != 0:
                    raise BuildError("%s does not compile:\n%s" % (c, err[-4000:]))
                objs.append(o)
        p = subprocess.run(["g++", "-o", out + ".tmp"] + objs + LIBS, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("link failed:\n" + p.stderr[-4000:])
        os.rename(out + ".tmp", out)
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
