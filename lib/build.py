#!/usr/bin/env python3
"""Build /repo's working tree with sanitizers, outside /repo's tracked files.

build(flavor) compiles every C source of milter/{core,client,server,manager},
libmilter, src, tool, the Ruby configuration module and the Ruby extensions
from $REPO (default /repo) into <verif>/.build/<flavor>/ with ninja.  Sources are globbed,
so files added to the tree are picked up (the lists of autotools are not
consulted).  Header dependencies are tracked through gcc depfiles.
"""
import glob, hashlib, os, re, subprocess, sys, fcntl, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FLAVORS = {
    "asan": "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
            "-fno-sanitize-recover=all -fno-sanitize=alignment,vptr",
    "tsan": "-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g",
}

CONFIG_H = """
#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "milter-manager"
#define GLIB_VERSION_MIN_REQUIRED GLIB_VERSION_2_50
#define HAVE_BIND_TEXTDOMAIN_CODESET 1
#define HAVE_DCGETTEXT 1
#define HAVE_DLFCN_H 1
#define HAVE_EV_H 1
#define HAVE_GETTEXT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LC_MESSAGES 1
#define HAVE_LOCALE_H 1
#define HAVE_RECVMSG 1
#define HAVE_SENDMSG 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_MSGHDR_MSG_CONTROL 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_UN_H 1
#define HAVE_UNISTD_H 1
#define LT_OBJDIR ".libs/"
#define PACKAGE "milter-manager"
#define PACKAGE_BUGREPORT "milter-manager-users-en@lists.osdn.me"
#define PACKAGE_NAME "milter-manager"
#define PACKAGE_STRING "milter-manager 2.3.2"
#define PACKAGE_TARNAME "milter-manager"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "2.3.2"
#define STDC_HEADERS 1
#define VERSION "2.3.2"
"""

MANAGER_DEFS = (
    r'-DPREFIX=\"/usr/local\" '
    r'-DCONFIGURATION_MODULE_DIR=\"/nonexistent/module\" '
    r'-DRUBY_BINDINGS_EXT_DIR=\"/nonexistent/ext\" '
    r'-DRUBY_BINDINGS_LIB_DIR=\"/nonexistent/lib\" '
    r'-DCONFIG_DIR=\"/nonexistent/etc\" '
    r'-DCONFIG_FILE_NAME=\"milter-manager.conf\" '
    r'-DCUSTOM_CONFIG_FILE_NAME=\"milter-manager.custom.conf\" '
    r'-DMILTER_MANAGER_PACKAGE_PLATFORM=\"debian\" '
    r'-DMILTER_MANAGER_PACKAGE_OPTIONS=NULL '
    r'-DMILTER_MANAGER_DEFAULT_EFFECTIVE_USER=NULL '
    r'-DMILTER_MANAGER_DEFAULT_EFFECTIVE_GROUP=NULL '
    r'-DMILTER_MANAGER_DEFAULT_SOCKET_GROUP=NULL '
    r'-DMILTER_MANAGER_DEFAULT_CONNECTION_SPEC=\"inet:10025@[127.0.0.1]\" '
    r'-DMILTER_MANAGER_DEFAULT_PID_FILE=NULL')

GLIB_C = "-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include -pthread"
GLIB_L = "-lgobject-2.0 -lgmodule-2.0 -lgthread-2.0 -lglib-2.0 -pthread"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


def mkenums(lib, prefix, out):
    src = f"{REPO}/milter/{lib}"
    names = [n for n in sorted(os.listdir(src))
             if n.endswith(".h") and "private" not in n and "internal" not in n
             and "enum-types" not in n]
    # only the headers automake lists as public matter for enum GTypes; the
    # others hold no enumerations
    tc = open(f"{REPO}/build/enum-types-template.c").read().replace(
        "@enum_types_header@", prefix + ".h")
    tcp = f"{out}/tmp-{prefix}-template.c"
    write_if_changed(tcp, tc)
    for ext, tmpl in (("h", f"{REPO}/build/enum-types-template.h"), ("c", tcp)):
        r = subprocess.run(["glib-mkenums", "--template", tmpl] + names,
                           cwd=src, stdout=subprocess.PIPE, check=True, text=True)
        write_if_changed(f"{out}/{prefix}.{ext}", r.stdout)


def ruby_flags():
    j = subprocess.run(
        ["/usr/bin/ruby", "-rrbconfig", "-rjson", "-e",
         "c=RbConfig::CONFIG; puts JSON.dump([c['rubyhdrdir'],c['rubyarchhdrdir'],"
         "c['vendorarchdir'],c['RUBY_SO_NAME'],c['libdir']])"],
        stdout=subprocess.PIPE, check=True, text=True).stdout
    hdr, arch, vendor, so, libdir = json.loads(j)
    return f"-I{vendor} -I{arch} -I{hdr}", f"-l{so}"


class Ninja:
    def __init__(self, flavor):
        self.flavor = flavor
        self.out = f"{VERIF}/.build/{flavor}"
        self.lines = []
        self.defaults = []

    def gen(self):
        out, L = self.out, self.lines
        san = FLAVORS[self.flavor]
        gen = f"{out}/gen"
        write_if_changed(f"{gen}/config.h", CONFIG_H)
        mkenums("core", "milter-enum-types", f"{gen}/milter/core")
        for lib in ("client", "server", "manager"):
            mkenums(lib, f"milter-{lib}-enum-types", f"{gen}/milter/{lib}")
        v = open(f"{REPO}/milter/core/milter-version.h.in").read()
        v = (v.replace("@MILTER_MANAGER_VERSION@", "2.3.2")
              .replace("@MILTER_MANAGER_VERSION_MAJOR@", "2")
              .replace("@MILTER_MANAGER_VERSION_MINOR@", "3")
              .replace("@MILTER_MANAGER_VERSION_MICRO@", "2"))
        write_if_changed(f"{gen}/milter/core/milter-version.h", v)
        rc, rl = ruby_flags()
        L.append("ninja_required_version = 1.5")
        L.append(f"cflags = {san} -fPIC -w -DHAVE_CONFIG_H -DMILTER_MANAGER_VERIF -I{gen} -I{REPO} "
                 f"-I/usr/include {GLIB_C} -DEV_COMPAT3=0 "
                 r'-DLOCALEDIR=\"/usr/local/share/locale\"')
        L.append("rule cc\n  command = gcc $cflags $extra -MMD -MF $out.d -c $in -o $out\n"
                 "  depfile = $out.d\n  deps = gcc\n  description = CC $out")
        L.append(f"rule so\n  command = gcc -shared {san} -o $out $in $libs\n  description = SO $out")
        L.append(f"rule exe\n  command = gcc {san} -o $out $in $libs\n  description = EXE $out")
        rp = f"-L{out}/lib -Wl,-rpath,{out}/lib"
        self.exact = ""
        if self.flavor == "asan":
            self.cc([f"{VERIF}/harness/preload/exactgstring.c", f"{VERIF}/harness/preload/heapstat.c"], "obj/preload", "")
            L.append(f"build {out}/lib/libvexact.so: so {out}/obj/preload/exactgstring.o {out}/obj/preload/heapstat.o\n  libs = {GLIB_L}")
            self.exact = f"-L{out}/lib -Wl,-rpath,{out}/lib -Wl,--no-as-needed -lvexact -Wl,--as-needed"
        genb = {"core": ["milter-enum-types"], "client": ["milter-client-enum-types"],
                "server": ["milter-server-enum-types"],
                "manager": ["milter-manager-enum-types"]}
        deps = {"core": [], "client": ["core"], "server": ["core"],
                "manager": ["core", "client", "server"]}
        for lib in ("core", "client", "server", "manager"):
            extra = (f'-I{gen}/milter/{lib} -I{REPO}/milter/{lib} '
                     rf'-DMILTER_LOG_DOMAIN=\"milter-{lib}\"')
            if lib == "manager":
                extra += " -DG_DISABLE_DEPRECATED " + MANAGER_DEFS
            srcs = sorted(glob.glob(f"{REPO}/milter/{lib}/*.c"))
            srcs = [s for s in srcs if "enum-types" not in s]
            srcs += [f"{gen}/milter/{lib}/{g}.c" for g in genb[lib]]
            objs = self.cc(srcs, f"obj/{lib}", extra)
            dl = [f"{out}/lib/libmilter-{d}.so" for d in deps[lib]]
            L.append(f"build {out}/lib/libmilter-{lib}.so: so {' '.join(objs)} | {' '.join(dl)}\n"
                     f"  libs = {rp} {' '.join('-lmilter-'+d for d in deps[lib])} {GLIB_L} -lev -Wl,-soname,libmilter-{lib}.so")
            self.defaults.append(f"{out}/lib/libmilter-{lib}.so")
        alll = [f"{out}/lib/libmilter-{d}.so" for d in ("core", "client", "server", "manager")]
        allf = f"{rp} -lmilter-manager -lmilter-client -lmilter-server -lmilter-core {GLIB_L} -lev"
        objs = self.cc([f"{REPO}/libmilter/libmilter-compatible.c"], "obj/libmilter",
                       r'-DMILTER_LOG_DOMAIN=\"libmilter\"' + f" -I{REPO}/libmilter")
        L.append(f"build {out}/lib/libmilter.so: so {' '.join(objs)} | {' '.join(alll)}\n"
                 f"  libs = {rp} -lmilter-client -lmilter-core {GLIB_L} -Wl,-soname,libmilter.so")
        self.defaults.append(f"{out}/lib/libmilter.so")
        objs = self.cc([f"{REPO}/src/milter-manager.c"], "obj/src", MANAGER_DEFS)
        self.exe("bin/milter-manager", objs, alll, allf)
        for t in ("milter-test-server", "milter-test-client"):
            objs = self.cc([f"{REPO}/tool/{t}.c"], "obj/tool", r'-DMILTER_LOG_DOMAIN=\"tool\"')
            self.exe(f"bin/{t}", objs, alll, allf)
        objs = self.cc([f"{REPO}/tool/milter-test-client-libmilter.c"], "obj/tool",
                       f"-UHAVE_CONFIG_H -include {gen}/config.h -I{REPO}/libmilter " + r'-DMILTER_LOG_DOMAIN=\"tool\"')
        self.exe("bin/milter-test-client-libmilter", objs, alll + [f"{out}/lib/libmilter.so"],
                 allf + " -lmilter")
        bind = f"{REPO}/binding/ruby/ext"
        inc = f"-UHAVE_CONFIG_H -include {gen}/config.h -I{bind}/core -I{bind}/client -I{bind}/server -I{bind}/manager"
        objs = self.cc(sorted(glob.glob(f"{REPO}/module/configuration/ruby/*.c")), "obj/module",
                       r'-DMILTER_LOG_DOMAIN=\"milter-manager-ruby-configuration\"' +
                       f" {MANAGER_DEFS} {inc} {rc}")
        L.append(f"build {out}/module/milter-manager-ruby-configuration.so: so {' '.join(objs)} | {' '.join(alll)}\n"
                 f"  libs = {allf} {rl} -Wl,-z,lazy")
        self.defaults.append(f"{out}/module/milter-manager-ruby-configuration.so")
        for e in ("core", "client", "server", "manager"):
            objs = self.cc(sorted(glob.glob(f"{bind}/{e}/*.c")), f"obj/ext-{e}",
                           f"{MANAGER_DEFS} {inc} {rc} " + r'-DMILTER_LOG_DOMAIN=\"milter-ruby\"')
            L.append(f"build {out}/ext/milter_{e}.so: so {' '.join(objs)} | {' '.join(alll)}\n"
                     f"  libs = {allf} {rl} -Wl,-z,lazy")
            self.defaults.append(f"{out}/ext/milter_{e}.so")
        # harnesses of /verif
        for src in sorted(glob.glob(f"{VERIF}/harness/*.c")):
            name = os.path.basename(src)[:-2]
            if name.startswith("common"):
                continue
            objs = self.cc([src], "obj/harness",
                           f"-I{VERIF}/harness -I{REPO}/libmilter " + MANAGER_DEFS +
                           r' -DMILTER_LOG_DOMAIN=\"harness\"')
            lm = " -lmilter" if "libmilter" in name else ""
            self.exe(f"bin/{name}", objs, alll + [f"{out}/lib/libmilter.so"],
                     allf + lm + " -ldl")
        L.append("default " + " ".join(self.defaults))
        write_if_changed(f"{out}/build.ninja", "\n".join(L) + "\n")

    def exe(self, name, objs, deps, libs):
        ex = f" {self.out}/lib/libvexact.so" if self.exact else ""
        self.lines.append(f"build {self.out}/{name}: exe {' '.join(objs)} | {' '.join(deps)}{ex}\n"
                          f"  libs = {self.exact} {libs}")
        self.defaults.append(f"{self.out}/{name}")

    def cc(self, srcs, sub, extra):
        objs = []
        for s in srcs:
            o = f"{self.out}/{sub}/{os.path.basename(s)[:-2]}.o"
            self.lines.append(f"build {o}: cc {s}\n  extra = {extra}")
            objs.append(o)
        return objs


class BuildError(Exception):
    pass


_done = set()


def build(flavor="asan", targets=()):
    """builds what changed, once per process (and the processes it forks)"""
    key = (flavor, tuple(targets))
    if key in _done:
        return f"{VERIF}/.build/{flavor}"
    out = f"{VERIF}/.build/{flavor}"
    os.makedirs(out, exist_ok=True)
    with open(f"{out}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        n = Ninja(flavor)
        n.gen()
        r = subprocess.run(["ninja", "-C", out, "-f", "build.ninja", "-k", "0"] + list(targets),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
    _done.add(key)
    return out


if __name__ == "__main__":
    for f in sys.argv[1:] or ["asan"]:
        print(build(f))
