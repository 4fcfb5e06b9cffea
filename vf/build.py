"""Builds the code under test and the harnesses, from /repo's working tree, one
directory per flavour under /verif/build (ignored by git)."""
import fcntl
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
PLUGINS = os.path.join(VERIF, "plugins")

COMMON = "-std=gnu++14 -include fstream -fPIC -g1 -DZMQ_BUILD_DRAFT_API -w"
INSTRUMENT = "-finstrument-functions"
# the harnesses: only what they inline from the code under test (Bus.h) is perturbed
HARNESS_FLAGS = "-fno-sanitize=undefined"
HARNESS_INSTRUMENT = INSTRUMENT + " -finstrument-functions-exclude-file-list=harness,basic_string,char_traits,stl_tree,stl_vector," \
    "alloc,stl_algo,stl_iterator,stl_map,stl_pair,/tuple,type_traits,move.h,new_allocator,ptr_traits"
FLAVOURS = {
    # name: (compile flags, link flags)
    "asan": ("-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -DVF_ASAN",
             "-fsanitize=address,undefined"),
    "tsan": ("-O1 -fno-omit-frame-pointer -fsanitize=thread -DVF_TSAN", "-fsanitize=thread"),
    "plain": ("-O1 -fno-omit-frame-pointer -DVF_PLAIN", ""),
}
LIBS = "-lflatbuffers -ljson-c -ldl -lpthread"


class BuildError(Exception):
    pass


def _sources():
    out = []
    for base, _, files in os.walk(os.path.join(REPO, "src", "lamppost")):
        if "platformspecific" in base:
            continue
        out += [os.path.join(base, f) for f in files if f.endswith(".cpp")]
    return sorted(out)


# harness -> (sources in harness/, extra targets it needs, extra libraries)
HARNESSES = {
    "h_data": (["h_data.cpp"], [], ""),
    "h_bus": (["h_bus.cpp"], [], ""),
    "h_action": (["h_action.cpp"], [], ""),
    "h_util": (["h_util.cpp"], [], ""),
    "h_plugin": (["h_plugin.cpp"], ["probes"], ""),
    "h_process": (["h_process.cpp"], ["probes", "lamppost-bin", "link", "sysinfo"], ""),
    "h_link": (["h_link.cpp"], ["link", "sysinfo"], "-lzmq"),
    "h_resource": (["h_resource.cpp"], ["probes", "link"], ""),
}


def build(flavour, harness):
    """Returns {name: path} of the binaries of this harness."""
    cflags, ldflags = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour)
    gen = os.path.join(out, "gen", "lamppost", "schemas")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(out, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(flavour, harness, cflags, ldflags, out)


def _build(flavour, harness, cflags, ldflags, out):
    n = []
    inc = "-I%s/gen -I%s/include -I/usr/include/json-c -I%s" % (out, REPO, HARNESS)
    n.append("builddir = %s" % out)
    n.append("rule cxx\n command = g++ %s %s %s $extra -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n" % (COMMON, cflags, inc))
    n.append("rule link\n command = g++ %s $in -o $out $libs\n" % ldflags)
    n.append("rule shared\n command = g++ %s -shared $in -o $out $libs\n" % ldflags)
    n.append("rule flatc\n command = flatc --cpp -o %s/gen/lamppost/schemas/ $in\n" % out)
    heads = []
    for s in ("FBDatagram", "FBMessage"):
        h = "%s/gen/lamppost/schemas/%s_generated.h" % (out, s)
        n.append("build %s: flatc %s/schemas/%s.fbs | %s" % (h, REPO, s, " ".join("%s/schemas/%s.fbs" % (REPO, x) for x in ("FBDatagram", "FBMessage"))))
        heads.append(h)
    order = " || " + " ".join(heads)

    def obj(src, name, extra=""):
        o = "%s/o/%s.o" % (out, name)
        n.append("build %s: cxx %s%s\n extra = %s" % (o, src, order, extra))
        return o

    lib = []
    for s in _sources():
        lib.append(obj(s, "lib/" + os.path.relpath(s, REPO).replace("/", "_"), INSTRUMENT))
    common = [obj(os.path.join(HARNESS, "common.cpp"), "common", HARNESS_FLAGS), obj(os.path.join(HARNESS, "perturb.cpp"), "perturb", HARNESS_FLAGS)]
    result = {}
    targets = []

    def shared(name, srcs, libs=""):
        p = "%s/p/%s" % (out, name)
        n.append("build %s: shared %s\n libs = %s %s" % (p, " ".join(srcs + lib), libs, LIBS))
        result[name] = p
        targets.append(p)

    srcs, needs, libs = HARNESSES[harness]
    objs = [obj(os.path.join(HARNESS, s), "h_" + s, HARNESS_FLAGS + (" " + HARNESS_INSTRUMENT if harness in ("h_bus", "h_action") else "")) for s in srcs]
    binary = "%s/%s" % (out, harness)
    n.append("build %s: link %s\n libs = %s %s" % (binary, " ".join(objs + lib + common), libs, LIBS))
    targets.append(binary)
    result["harness"] = binary
    for need in needs:
        if need == "probes":
            for f in sorted(os.listdir(PLUGINS)):
                if f.endswith(".cpp"):
                    name = f[:-4]
                    shared("libplugin_%s.so" % name, [obj(os.path.join(PLUGINS, f), "p_" + name)])
        elif need == "sysinfo":
            shared("libplugin_sysinfo.so", [obj(REPO + "/src/plugins/sysinfo/SysInfo.cpp", "p_sysinfo", INSTRUMENT)])
        elif need == "link":
            shared("libplugin_link.so", [obj(REPO + "/src/plugins/link/Link.cpp", "p_link", INSTRUMENT)], "-lzmq")
        elif need == "lamppost-bin":
            b = "%s/LampPost-bin" % out
            n.append("build %s: link %s\n libs = %s" % (b, " ".join([obj(REPO + "/src/main.cpp", "main", INSTRUMENT), obj(REPO + "/src/lamppost/platformspecific/xnix/Xnix.cpp", "xnix", INSTRUMENT)] + lib + common), LIBS))
            targets.append(b)
            result["lamppost-bin"] = b
    file = "%s/%s.ninja" % (out, harness)
    text = "\n".join(n) + "\n"
    if not os.path.exists(file) or open(file).read() != text:
        with open(file, "w") as f:
            f.write(text)
    r = subprocess.run(["ninja", "-f", file, "-j", str(os.cpu_count() or 4)] + targets,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        lines = [x for x in r.stdout.splitlines() if "error" in x or "undefined" in x] or r.stdout.splitlines()[-30:]
        raise BuildError("\n".join(x[:400] for x in lines[:20]))
    return result
