#!/usr/bin/env python3
"""build.py VARIANT TARGET...   builds casual (from /repo's working tree) and the harnesses of /verif.

/repo's sources are mirrored, by content, into /verif/.build/src (a file is only
rewritten when its content differs, so ninja's time stamps follow content, not
whatever the checkout did to mtimes). The makefile.cmk files of the mirror are
evaluated to know what to compile and link; cppcodec (base64) comes from
/verif/shim, so the whole middleware works. Output: /verif/.build/<variant>/,
laid out as the source tree (middleware/x/bin/...), with the harnesses in
/verif/.build/<variant>/harness/bin.

TARGET is a harness name (see harness/harness.json), a path of a binary
relative to the source root, or 'all'. Exit: 0 built, 2 the build failed."""

import ast
import fcntl
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
SRC = BUILD + "/src"
THIRDPARTY = SRC + "/casual-thirdparty-is-not-available"

# casual itself is compiled with -O0 -g0: compile time is what bounds a check
# after a change to a central header.
COMMON = "-std=c++23 -fPIC -pthread -Wno-everything"
VARIANTS = {
    "sys": dict(cxx="/usr/bin/clang++", flags="-O0 -g0", pch="-O0 -g0", link="-Wl,--copy-dt-needed-entries"),
    "asan": dict(
        cxx="/usr/bin/clang++",
        flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address",
        link="-Wl,--copy-dt-needed-entries -fsanitize=address -shared-libsan",
    ),
}


# ---------------------------------------------------------------- the mirror

SKIP_DIRS = {".git", "_build", "bin", "obj", "webapp", "docker", "pipeline", "package", "__pycache__", "documentation"}
SUFFIXES = {".cpp", ".h", ".hpp", ".c", ".cmk", ".yaml", ".yml", ".json", ".xml", ".ini", ".md", ".sql", ".txt", ".cbl", ".cpy"}


def wanted(name):
    return os.path.splitext(name)[1] in SUFFIXES


def mirror():
    seen = set()
    for base in ("middleware", "test", "thirdparty", "documentation"):
        for directory, dirs, files in os.walk(f"{REPO}/{base}"):
            dirs[:] = [d for d in dirs if d not in SKIP_DIRS or (d == "documentation" and ("/source" in directory or "/include" in directory))]
            relative = os.path.relpath(directory, REPO)
            for name in files:
                if not wanted(name):
                    continue
                path = os.path.join(relative, name)
                source = os.path.join(directory, name)
                if os.path.islink(source) and not os.path.exists(source):
                    continue
                seen.add(path)
                content = open(source, "rb").read()
                target = f"{SRC}/{path}"
                try:
                    if open(target, "rb").read() == content:
                        continue
                except OSError:
                    os.makedirs(os.path.dirname(target), exist_ok=True)
                open(target, "wb").write(content)
    # the top makefile
    for name in ("makefile.cmk",):
        content = open(f"{REPO}/{name}", "rb").read()
        target = f"{SRC}/{name}"
        if not os.path.exists(target) or open(target, "rb").read() != content:
            os.makedirs(SRC, exist_ok=True)
            open(target, "wb").write(content)
    # what is gone from the repository
    for base in ("middleware", "test", "thirdparty", "documentation"):
        for directory, dirs, files in os.walk(f"{SRC}/{base}"):
            for name in files:
                path = os.path.relpath(os.path.join(directory, name), SRC)
                if path not in seen:
                    os.unlink(os.path.join(SRC, path))


# ---------------------------------------------------------------- makefiles


class Anything:
    def __getattr__(self, name):
        return self

    def __call__(self, *args, **kwargs):
        return self


class Target:
    def __init__(self, output):
        self.output = output


class Project:
    def __init__(self, out):
        self.out = out
        self.objects = {}
        self.links = []
        self.libraries = {}

    def bin(self, path):
        return self.out + "/" + os.path.relpath(path, SRC)


def flatten(items):
    return [items] if isinstance(items, (str, Target)) else list(items)


class Makefile:
    def __init__(self, project, filename):
        self.project = project
        self.directory = os.path.dirname(filename)
        self.includes = []
        self.library_paths = []
        self.model = Anything()

    def absolute(self, path):
        return os.path.normpath(os.path.join(self.directory, path))

    def existing(self, paths):
        return [p for p in map(self.absolute, paths) if not p.startswith(THIRDPARTY)]

    def Build(self, path):
        path = self.absolute(path)
        if not path.startswith(THIRDPARTY) and "/documentation/" not in path and "nginx" not in path:
            evaluate(self.project, path)

    def IncludePaths(self, paths):
        self.includes = self.existing(paths)

    def LibraryPaths(self, paths):
        self.library_paths = [self.project.bin(p) for p in self.existing(paths)]

    def optional_include_paths(self):
        return []

    def optional_library_paths(self):
        return []

    def source_root(self):
        return SRC

    def Environment(self, *args):
        pass

    def Dependencies(self, *args):
        pass

    def Install(self, *args):
        pass

    def GenerateDocumentation(self, *args, **kwargs):
        pass

    def Compile(self, source, destination=None, directive=()):
        source = self.absolute(source)
        objects = self.project.objects
        output = f"{self.project.out}/obj/{os.path.relpath(source, SRC)}.o"
        if output in objects and objects[output][1] != self.includes:
            output = f"{self.project.out}/obj/{os.path.relpath(self.directory, SRC)}/_from/{os.path.relpath(source, SRC)}.o"
        objects[output] = (source, list(self.includes), list(directive))
        return Target(output)

    def _link(self, kind, output, objs, libs, **extra):
        self.project.links.append(
            dict(
                kind=kind, output=output, objects=[o.output for o in objs], libs=flatten(libs),
                paths=list(self.library_paths), includes=list(self.includes), directory=self.directory, **extra,
            )
        )
        return Target(output)

    def _name(self, name, prefix, suffix):
        head, tail = os.path.split(self.absolute(name))
        return self.project.bin(os.path.join(head, prefix + tail + suffix))

    def LinkLibrary(self, name, objs, libs=()):
        output = self._name(name, "lib", ".so")
        self.project.libraries.setdefault(os.path.basename(name), []).insert(0, output)
        return self._link("shared", output, objs, libs)

    def LinkArchive(self, name, objs):
        output = self._name(name, "lib", ".a")
        self.project.libraries.setdefault(os.path.basename(name), []).append(output)
        return self._link("archive", output, objs, [])

    def LinkExecutable(self, name, objs, libs=()):
        return self._link("exe", self.project.bin(self.absolute(name)), objs, libs)

    def LinkUnittest(self, name, objs, libs=()):
        return self._link("exe", self.project.bin(self.absolute(name)), objs, list(libs) + ["gtest", "gtest_main"])

    def LinkServer(self, name, objs, libs, definition, resources=None, configuration=None):
        directive = []
        if resources:
            directive += ["--resource-keys"] + resources
        if configuration:
            directive += ["--properties-file", configuration]
        inputs = []
        if isinstance(definition, str):
            directive += ["--server-definition", definition]
            inputs.append(self.absolute(definition))
        else:
            directive += ["-s"] + definition
        return self._link("server", self.project.bin(self.absolute(name)), objs, libs, directive=directive, inputs=inputs)

    def paths(self):
        class Group:
            serialization = cppcodec = gtest = []

        class Paths:
            thirdparty = THIRDPARTY
            install = "/opt/casual"
            include = Group
            library = Group

        return Paths


def evaluate(project, filename):
    tree = ast.parse(open(filename).read(), filename)
    tree.body = [
        node for node in tree.body
        if not (
            isinstance(node, ast.Import) and node.names[0].name.startswith("casual.")
            or isinstance(node, ast.ImportFrom) and node.module.startswith("casual.")
        )
    ]
    make = Makefile(project, filename)

    class casual:
        class middleware:
            class make:
                api = None
    casual.middleware.make.api = make
    exec(
        compile(tree, filename, "exec"),
        dict(__file__=filename, make=make, dsl=make, casual=casual, model=Anything(), Recipe=Anything()),
    )


def library_name(item):
    if isinstance(item, Target):
        return os.path.basename(item.output)[3:].rsplit(".", 1)[0]
    return item


def esc(path):
    return path.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def write_if_changed(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != content:
        open(path, "w").write(content)


def generate(variant):
    v = VARIANTS[variant]
    out_dir = f"{BUILD}/{variant}"
    project = Project(out_dir)
    evaluate(project, SRC + "/makefile.cmk")

    harnesses = json.load(open(VERIF + "/harness/harness.json"))
    gtest = f"{out_dir}/gtest"
    out = ["ninja_required_version = 1.5", f"builddir = {out_dir}", ""]
    out += [
        f"cxx = {v['cxx']}",
        "rule cxx",
        f"  command = cd $dir && $cxx {COMMON} {v['flags']} $directive -I{VERIF}/shim $includes -MMD -MF $out.d -c $in -o $out",
        "  depfile = $out.d", "  deps = gcc", "  description = compile $in", "",
        # a source that does not compile with the precompiled header (casual undefines
        # the macros of tx.h and xa.h, say) is compiled without it
        "rule cxxpch",
        f"  command = cd $dir && ( $cxx {COMMON} {v['flags']} $pch $directive -I{VERIF}/shim $includes -MMD -MF $out.d -c $in -o $out 2>/dev/null || $cxx {COMMON} {v['flags']} $directive -I{VERIF}/shim $includes -MMD -MF $out.d -c $in -o $out )",
        "  depfile = $out.d", "  deps = gcc", "  description = compile $in", "",
        "rule pch",
        f"  command = $cxx {COMMON} {v['flags']} $includes -MMD -MF $out.d -x c++-header -fpch-instantiate-templates $in -o $out",
        "  depfile = $out.d", "  deps = gcc", "  description = pch $in", "",
        "rule archive", "  command = rm -f $out && ar rcs $out $in", "  description = archive $out", "",
        "rule shared",
        f"  command = $cxx -shared -pthread {v['link']} -o $out $in $libs",
        "  description = link $out", "",
        "rule exe",
        f"  command = $cxx -pthread {v['link']} -o $out $in $libs",
        "  description = link $out", "",
        "rule server",
        f"  command = cd $dir && . {out_dir}/env.sh && casual-build-server $arguments",
        "  description = casual-build-server $out", "",
    ]

    # googletest: casual's unittest support library needs it
    for name in ("gtest-all", "gtest_main"):
        out += [
            f"build {gtest}/{name}.o: cxx /usr/src/googletest/googletest/src/{name}.cc",
            f"  dir = {out_dir}",
            "  includes = -I/usr/src/googletest/googletest -I/usr/src/googletest/googletest/include",
            "  directive =",
        ]
    out += [
        f"build {gtest}/libgtest.so: shared {gtest}/gtest-all.o",
        f"build {gtest}/libgtest_main.so: shared {gtest}/gtest_main.o | {gtest}/libgtest.so",
        f"  libs = -L{gtest} -lgtest", "",
    ]

    # a precompiled header, shared by everything
    pch = ""
    if "pch" in v:
        pch = f"{out_dir}/pch.h.pch"
        out += [
            f"build {pch}: pch {VERIF}/tools/pch.h",
            f"  includes = -I{SRC}/middleware/common/include -I{SRC}/middleware/xatmi/include",
            "",
        ]

    def compile_statement(output, source, includes, directive, use_pch=True, implicit=""):
        rule = "cxx"
        if pch and use_pch:
            implicit += f" {pch}"
            rule = "cxxpch"
        return [
            f"build {esc(output)}: {rule} {esc(source)} |{implicit}" if implicit else f"build {esc(output)}: {rule} {esc(source)}",
            f"  dir = {SRC}/middleware",
            "  includes = " + " ".join("-I" + p for p in includes),
            "  directive = " + " ".join(directive),
        ] + ([f"  pch = -include-pch {pch}"] if pch and use_pch else [])

    gcc_only = {"-fconcepts-diagnostics-depth=2", }
    for output, (source, includes, directive) in sorted(project.objects.items()):
        directive = [d for d in directive if d not in gcc_only]
        out += compile_statement(output, source, includes, directive)

    all_bins = sorted({os.path.dirname(l["output"]) for l in project.links})
    lib_path = [gtest] + all_bins
    if variant == "asan":
        runtime = subprocess.run([v["cxx"], "-print-runtime-dir"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        if not os.path.exists(runtime + "/libclang_rt.asan.so"):
            alternative = os.path.dirname(runtime) + "/linux"
            runtime = alternative if os.path.isdir(alternative) else runtime
        lib_path.append(runtime)
    rpath_link = "-Wl,-rpath-link," + ":".join(lib_path)

    def resolve(libs):
        dependencies = []
        for item in libs:
            dependencies += project.libraries.get(library_name(item), [])[:1]
        return list(dict.fromkeys(dependencies))

    # archives have no dependencies of their own; binaries that link shared
    # libraries depend on them in turn, so ninja orders it all.
    for link in project.links:
        dependencies = [d for d in resolve(link["libs"]) if d != link["output"]]
        names = [library_name(i) for i in link["libs"]]
        if any(n in ("gtest", "gtest_main") for n in names) or "casual-unittest" in names:
            dependencies += [f"{gtest}/libgtest.so", f"{gtest}/libgtest_main.so"]
        paths = " ".join("-L" + p for p in [gtest] + link["paths"])
        implicit = " ".join(map(esc, dependencies))
        ins = " ".join(map(esc, link["objects"]))
        if link["kind"] == "server":
            build_server = out_dir + "/middleware/tools/bin/casual-build-server"
            xatmi = project.libraries["casual-xatmi"][0]
            mockup = project.libraries["casual-mockup-rm"][0]
            arguments = (
                ["-c", v["cxx"], "-o", link["output"]] + link["directive"]
                + ["-f", "'" + " ".join(["-std=c++23", "-pthread", "-fPIC", v["flags"], v["link"]] + link["objects"]) + "'"]
                + ["-l" + n for n in names]
                + ["-L" + p for p in link["paths"]]
                + [rpath_link]
                + ["-I" + p for p in link["includes"]]
            )
            inputs = " ".join(map(esc, link["inputs"] + [build_server, xatmi, mockup]))
            out += [
                f"build {esc(link['output'])}: server {ins} | {implicit} {inputs}",
                f"  dir = {link['directory']}",
                "  arguments = " + " ".join(arguments),
            ]
            continue
        out.append(f"build {esc(link['output'])}: {link['kind']} {ins} | {implicit}")
        if link["kind"] != "archive":
            group = "-Wl,--start-group " + " ".join("-l" + n for n in names) + " -Wl,--end-group"
            out.append(f"  libs = {paths} {group} {rpath_link}")

    # harnesses
    wanted_targets = {}
    every_include = sorted({i for (_, includes, _) in project.objects.values() for i in includes})
    for name, h in harnesses.items():
        if variant not in h.get("variants", ["sys"]):
            continue
        outputs = []
        objects = []
        for source in h["sources"]:
            source = source if source.startswith("/") else f"{VERIF}/harness/{source}"
            if source.endswith(".cpp") and source.startswith(VERIF):
                obj = f"{out_dir}/harness/obj/{name}/{os.path.basename(source)}.o"
                flags = ["-I" + VERIF + "/harness"] + h.get("flags", []) + ["-I" + i for i in every_include] + ["-I/usr/src/googletest/googletest/include"]
                out += compile_statement(obj, source, [], flags, use_pch=h.get("pch", True))
                objects.append(obj)
        # objects of casual's own, by source path
        for source in h.get("casual_objects", []):
            objects.append(f"{out_dir}/obj/{source}.o")
        libs = h.get("libs", [])
        dependencies = resolve(libs) + [f"{gtest}/libgtest.so"]
        paths = " ".join("-L" + p for p in [gtest] + all_bins)
        group = "-Wl,--start-group " + " ".join("-l" + n for n in libs) + " -Wl,--end-group -lgtest " + " ".join(h.get("link", []))
        binary = f"{out_dir}/harness/bin/{name}"
        kind = h.get("kind", "exe")
        out += [
            f"build {binary}: {kind} {' '.join(objects)} | {' '.join(map(esc, dependencies))}",
            f"  libs = {paths} {group} {rpath_link}",
        ]
        outputs.append(binary)
        outputs += [f"{out_dir}/{p}" for p in h.get("needs", [])]
        outputs += [f"{out_dir}/harness/bin/{p}" for p in h.get("needs_harness", [])]
        wanted_targets[name] = outputs

    write_if_changed(f"{out_dir}/build.ninja", "\n".join(out) + "\n")
    write_if_changed(
        f"{out_dir}/env.sh",
        "export LC_ALL=C.UTF-8 LANG=C.UTF-8\n"
        f"export CASUAL_MAKE_SOURCE_ROOT={out_dir}\n"
        f"export CASUAL_RESOURCE_CONFIGURATION_FILE={SRC}/middleware/example/resources/resources.yaml\n"
        'export CASUAL_LOG=${VERIF_LOG_MASK:-"(error|warning|information)"}\n'
        "export CASUAL_LOG_PATH=${VERIF_CASUAL_LOG:-/dev/null}\n"
        f"export LD_LIBRARY_PATH={':'.join(lib_path)}\n"
        f'export PATH="{out_dir}/middleware/tools/bin:$PATH"\n',
    )
    for link in project.links:
        os.makedirs(os.path.dirname(link["output"]), exist_ok=True)
    return wanted_targets, project, out_dir


def main():
    variant = sys.argv[1]
    targets = sys.argv[2:]
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            mirror()
            wanted_targets, project, out_dir = generate(variant)
        except Exception as error:  # a makefile that does not evaluate, say
            print(f"build.py: {type(error).__name__}: {error}", file=sys.stderr)
            return 2
        goals = []
        for target in targets:
            if target == "all":
                goals += [l["output"] for l in project.links]
            elif target == "harnesses":
                goals += [o for outputs in wanted_targets.values() for o in outputs]
            elif target in wanted_targets:
                goals += wanted_targets[target]
            else:
                goals.append(f"{out_dir}/{target}")
        jobs = os.environ.get("VERIF_JOBS")
        command = ["ninja", "-C", out_dir] + (["-j", jobs] if jobs else []) + list(dict.fromkeys(goals))
        result = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", stdin=subprocess.DEVNULL)
        tail = result.stdout.splitlines()
        if result.returncode != 0:
            errors = [l[:400] for l in tail if not l.startswith("[")]
            print("\n".join(errors[:60]), file=sys.stderr)
            return 2
        print(tail[-1] if tail else "built")
        return 0


if __name__ == "__main__":
    sys.exit(main())
