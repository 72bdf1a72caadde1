"""Builds variants of the library from the working tree of /repo, in a scratch directory."""
import os, re, shutil, subprocess, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# The functional checks watch for memory errors and for the kinds of undefined
# behaviour that change results on the platform used here; C24 adds the rest.
UB_CORE = "bounds,null,shift-exponent,integer-divide-by-zero,vla-bound,return,unreachable,object-size"
# Null pointers in zero-length copies and addresses that are only formed are left out.
UB_FULL = UB_CORE + ",shift,signed-integer-overflow,float-cast-overflow,float-divide-by-zero,bool,enum,alignment,builtin,bounds-strict"

VARIANTS = {
    # name: (cc, cflags, link flags)
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize=%s "
                    "-fno-sanitize-recover=all" % UB_CORE, ""),
    # automatic variables start with a pattern that is no usable pointer or length
    "asanfill": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize=%s "
                        "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern" % UB_CORE, ""),
    "asanub": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize=%s "
                      "-fno-sanitize-recover=all" % UB_FULL, ""),
    "rel": ("gcc", "-O3 -g -DNDEBUG", ""),
    "dbg": ("gcc", "-O0 -g", ""),
    "msan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=memory "
                      "-fsanitize-memory-track-origins=1 -fno-sanitize-recover=all", ""),
    # gcc's ThreadSanitizer does not watch memcpy and memset
    "tsan": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread", ""),
    # without optimisation every access to a static object remains visible
    "tsan0": ("clang", "-O0 -g -fno-omit-frame-pointer -fsanitize=thread", ""),
    "clang": ("clang", "-O2 -g -DNDEBUG", ""),
}

WRAP = "-Wl," + ",".join("--wrap=" + s for s in
                         ("malloc", "calloc", "realloc", "free", "cry_prng_aes_rand"))


class BuildError(Exception):
    pass


class LibraryError(BuildError):
    """The library itself does not compile."""


class Tree:
    """Scratch copy of the repository's sources plus the built variants."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cryv-")
        self.src = os.path.join(self.dir, "src0")
        os.mkdir(self.src)
        for name in ("src", "include", "config"):
            shutil.copytree(os.path.join(REPO, name), os.path.join(self.src, name),
                            ignore=shutil.ignore_patterns("*.o", "*.d", "*.gcda", "*.gcno", "*.a"))
        shutil.copy(os.path.join(REPO, "Makefile"), self.src)
        self.bins = {}
        self.recipes = {}

    def constants(self):
        """Integer literals of the library's sources: a dictionary for the generators."""
        out = set()
        for base, _, files in os.walk(os.path.join(self.src, "src")):
            for f in sorted(files):
                if not f.endswith((".c", ".h")) or "curves" in f:
                    continue
                text = open(os.path.join(base, f), errors="replace").read()
                text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
                text = re.sub(r"//[^\n]*", " ", text)
                text = re.sub(r'"(\\.|[^"\\])*"', " ", text)
                # tables (long lists of literals) are no decision constants
                text = re.sub(r"\{[^{};()]*,[^{};()]*,[^{};()]*,[^{};()]*\}", " ", text)
                for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b", text):
                    try:
                        v = int(m.group(1), 0)
                    except ValueError:
                        continue
                    if 1 < v < (1 << 64):
                        out.add(v)
                for m in re.finditer(r"\b(\d+)\s*<<\s*(\d+)\b", text):
                    v = int(m.group(1)) << min(int(m.group(2)), 64)
                    if 1 < v < (1 << 64):
                        out.add(v)
        return sorted(out)

    def build(self, name, base=None, extra="", config=None, jobs=8):
        """Builds variant `name` (from VARIANTS[base or name]) and returns the driver path.

        config: dict of configuration options to switch on/off in the .mk file."""
        cc, cflags, lflags = VARIANTS[base or name]
        self.recipes[name] = [base, extra, config]
        cflags = (cflags + " " + extra).strip()
        d = os.path.join(self.dir, "b-" + name)
        shutil.copytree(self.src, d)
        mk = "config/config.mk"
        if config:
            text = open(os.path.join(d, mk)).read()
            for k, on in config.items():
                text = re.sub(r"(?m)^#?\s*%s=.*$" % k, "", text)
                if on:
                    text += "\n%s=y\n" % k
            # config.h is derived from lines with '='
            open(os.path.join(d, mk), "w").write(text)
        env = {k: v for k, v in os.environ.items()
               if k not in ("MAKEFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CONFIG", "CC")}
        r = subprocess.run(["make", "-s", "-j%d" % jobs, "all", "CC=" + cc, "CFLAGS=" + cflags + " -w"],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lib = os.path.join(d, "libcry.a")
        if r.returncode != 0 or not os.path.exists(lib):
            raise LibraryError("library build (%s) failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        out = os.path.join(self.dir, "drv-" + name)
        r = subprocess.run("%s %s -w -Iinclude %s/driver/drv.c libcry.a %s %s -lpthread -o %s"
                           % (cc, cflags, VERIF, WRAP, lflags, out), shell=True, cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError("driver build (%s) failed:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        shutil.rmtree(d)
        self.bins[name] = out
        return out

    def build_many(self, specs, failed=None):
        """specs: (name, base, extra, config), built side by side. With a dictionary `failed`, libraries that
        do not compile are entered there (the default configuration has to)."""
        from concurrent.futures import ThreadPoolExecutor
        if "rel" not in self.bins:
            self.build("rel")
        with ThreadPoolExecutor(6) as ex:
            for x, f in [(x, ex.submit(self.build, *x, jobs=2)) for x in specs]:
                try:
                    f.result()
                except LibraryError as e:
                    if failed is None:
                        raise
                    failed[x[0]] = str(e)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
