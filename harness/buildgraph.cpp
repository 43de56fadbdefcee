// C25: what the build system is made of, given the modules of a project.
// SX: srcdef FileSystem_POSIX -include kredirect.h
#include "kernel.h"
#include <ply-build-repo/Module.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-target/TargetError.h>

using kern::Dir; using kern::File;
static const u32 MAX = 5;
enum ModKind : u8 { Lib, HeaderOnly, ObjectLib, External, EXE, DLL };
// A project: an edge from i to j < i is 0 (none), 1 (private) or 2 (public).
struct Project {
    u32 n;
    ModKind kind[MAX];
    u32 edge[MAX][MAX] = {};
    bool downwards = false; // order in which edges are declared
    bool again = false; // and again, public if that is what it is
    u8 val[MAX];
    bool sees[MAX][MAX], builds[MAX][MAX], reaches[MAX][MAX];
    // Public items of j are seen by whoever depends on i, used while building i, linked into i.
    void close() {
        for (u32 i = 0; i < n; i++)
            for (u32 j = 0; j < n; j++) {
                bool pub = i == j, any = i == j, reach = i == j;
                for (u32 k = 0; k < i; k++) {
                    if (edge[i][k] == 2) pub = pub || sees[k][j];
                    if (edge[i][k]) { any = any || sees[k][j]; reach = reach || reaches[k][j]; }
                }
                sees[i][j] = pub; builds[i][j] = any; reaches[i][j] = reach;
            }
    }
};
static String named(const char* prefix, u32 i) { return StringView{prefix} + String::from(i); }
static u32 count(const Array<String>& a, StringView s) { u32 c = 0; for (const String& x : a) c += x == s; return c; }
static s32 indexOf(const Array<String>& a, StringView s) { for (u32 i = 0; i < a.numItems(); i++) if (a[i] == s) return (s32) i; return -1; }
static u32 countKey(const Array<PreprocessorDefinition>& a, StringView s) { u32 c = 0; for (const auto& x : a) c += x.key == s; return c; }
static StringView valueOf(const Array<PreprocessorDefinition>& a, StringView s) { for (const auto& x : a) if (x.key == s) return x.value; return {}; }

static void pickEdges(Project& g) {
    for (u32 i = 1; i < g.n; i++)
        for (u32 j = 0; j < i; j++) g.edge[i][j] = (u32) sx_pick(0, 2, "edge");
    g.downwards = sx_pick(0, 1, "down") != 0;
}
static String libName(const Project& g, u32 i) {
    if (g.kind[i] == External) return named("-lx", i);
    if (g.kind[i] == ObjectLib) return String::format("$<TARGET_OBJECTS:t{}>", i);
    return named("t", i);
}
// What a target is built with, once everything has been propagated.
static void checkTarget(const Project& g, u32 i, Dependency* dep) {
    for (u32 j = 0; j < g.n; j++) {
        String pub = named("/pub", j), own = named("/own", j), key = named("K", j), flag = named("flag", j), secret = named("S", j);
        CHECKM(count(dep->includeDirs, pub) == g.sees[i][j], "include folders for others: what is public, once");
        CHECKM(countKey(dep->defines, key) == g.sees[i][j], "definitions for others: what is public, once");
        CHECKM(count(dep->abstractFlags, flag) == g.sees[i][j], "flags for others: what is public, once");
        CHECKM(!g.sees[i][j] || (valueOf(dep->defines, key).numBytes == 1 && valueOf(dep->defines, key)[0] == (char) g.val[j]), "value of a definition");
        CHECKM(count(dep->includeDirs, own) == 0 && countKey(dep->defines, secret) == 0, "what is private stays private");
        CHECKM((find(dep->visibleDeps, [&](Dependency* d) { return d->includeDirs && d->includeDirs[0] == pub; }) >= 0) == g.sees[i][j], "visible dependencies");
        if (BuildTarget* t = dep->buildTarget) {
            CHECKM(count(t->privateIncludeDirs, pub) == g.builds[i][j], "include folders: own ones and public ones, once");
            CHECKM(countKey(t->privateDefines, key) == g.builds[i][j], "definitions: own ones and public ones, once");
            CHECKM(!g.builds[i][j] || (valueOf(t->privateDefines, key).numBytes == 1 && valueOf(t->privateDefines, key)[0] == (char) g.val[j]), "value of a definition");
            CHECKM(count(t->privateIncludeDirs, own) == (i == j) && countKey(t->privateDefines, secret) == (i == j), "private items of another target are not used");
            CHECKM(i == j || count(t->privateAbstractFlags, flag) == g.builds[i][j], "flags: own ones and public ones, once");
        }
        // Libraries
        if (i == j) continue;
        String lib = libName(g, j);
        bool linked = g.reaches[i][j] && g.kind[j] != HeaderOnly;
        CHECKM(count(dep->libs, lib) == linked, "libraries: all that is needed, once");
        if (linked)
            for (u32 k = 0; k < j; k++)
                if (g.reaches[j][k] && g.kind[k] != HeaderOnly) CHECKM(indexOf(dep->libs, libName(g, k)) < indexOf(dep->libs, lib), "libraries: whatever a library needs is listed before it");
    }
}
static Dependency* makeDep(const Project& g, u32 i, Array<Owned<Dependency>>& deps) {
    Dependency* dep = new Dependency;
    deps.append(dep);
    StringView v{(const char*) &g.val[i], 1};
    if (g.kind[i] == External) {
        dep->includeDirs.append(named("/pub", i));
        dep->libs.append(named("-lx", i));
        dep->defines.append({named("K", i), v});
    } else {
        BuildTarget* t = new BuildTarget{dep};
        dep->buildTarget = t;
        t->name = named("t", i);
        static const BuildTargetType types[] = {BuildTargetType::Lib, BuildTargetType::HeaderOnly, BuildTargetType::ObjectLib, BuildTargetType::Lib, BuildTargetType::EXE, BuildTargetType::DLL};
        t->targetType = types[g.kind[i]];
        t->addIncludeDir(Visibility::Public, named("/pub", i));
        t->addIncludeDir(Visibility::Private, named("/own", i));
        t->setPreprocessorDefinition(Visibility::Public, named("K", i), v);
        t->setPreprocessorDefinition(Visibility::Private, named("S", i), v);
    }
    dep->abstractFlags.append(named("flag", i));
    for (u32 a = 0; a < i; a++) {
        u32 j = g.downwards ? i - 1 - a : a;
        if (!g.edge[i][j]) continue;
        bool pub = g.edge[i][j] == 2, first = pub && !g.again;
        CHECKM(dep->addDependency(first ? Visibility::Public : Visibility::Private, deps[j]), "a dependency is new");
        if (g.again) CHECKM(!dep->addDependency(pub ? Visibility::Public : Visibility::Private, deps[j]) && !dep->addDependency(Visibility::Private, deps[j]), "a dependency is there already");
    }
    return dep;
}
ENTRY h_graph_propagate() {
    sx_mark_heap();
    {
        Project g;
        g.n = (u32) sx_param("N", 4);
        pickEdges(g);
        g.again = sx_pick(0, 1, "again") != 0;
        for (u32 i = 0; i < g.n; i++) {
            g.kind[i] = i + 1 < g.n ? (ModKind) sx_pick(0, sx_param("KINDS", 3), "kind") : EXE;
            g.val[i] = (u8) sx_var(8, "v");
        }
        g.close();
        Array<Owned<Dependency>> deps;
        for (u32 i = 0; i < g.n; i++) makeDep(g, i, deps);
        bool up = g.again; // whichever is propagated first
        for (u32 i = 0; i < g.n; i++) propagateDependencyProperties(deps[up ? i : g.n - 1 - i]);
        propagateDependencyProperties(deps[g.n - 1]);
        for (u32 i = 0; i < g.n; i++) checkTarget(g, i, deps[i]);
    }
    sx_check_leaks();
    sx_reach("end");
}

// A project as a whole: modules are instantiated, propagated and written as a CMakeLists.txt.
static Project* project;
static u32 called[MAX];
enum State { Ready, Unselected, Uninstalled };
static State state[MAX];
static bool prefixed[MAX], qualify, clash;
static u32 indexOfName(StringView name) { return (u32) (name.bytes[1] - '0'); }
static ExternResult externFunc(ExternCommand cmd, ExternProviderArgs* args) {
    u32 i = indexOfName(args->provider->extern_->name);
    CHECK(cmd == ExternCommand::Instantiate);
    if (state[i] == Uninstalled) return {ExternResult::SupportedButNotInstalled, ""};
    called[i]++;
    args->dep->includeDirs.append(named("/pub", i));
    args->dep->libs.append(named("-lx", i));
    args->dep->defines.append({named("K", i), StringView{(const char*) &project->val[i], 1}});
    args->dep->abstractFlags.append(named("flag", i));
    args->dep->dlls.append(named("/x/d", i));
    args->dep->frameworks.append(named("Fw", i));
    return {ExternResult::Instantiated, ""};
}
static void moduleFunc(ModuleArgs* args) {
    u32 i = indexOfName(args->targetInst->name);
    Project& g = *project;
    called[i]++;
    BuildTarget* t = args->buildTarget;
    StringView v{(const char*) &g.val[i], 1};
    if (g.kind[i] == EXE) t->targetType = BuildTargetType::EXE;
    if (g.kind[i] != HeaderOnly) {
        t->anySourceFiles = true;
        t->sourceFiles.append({named("/src", i), {"a.cpp", "sub/b.h"}});
    }
    args->addIncludeDir(Visibility::Public, named("../pub", i));
    args->addIncludeDir(Visibility::Private, named("../own", i));
    args->setPreprocessorDefinition(Visibility::Public, named("K", i), v);
    args->setPreprocessorDefinition(Visibility::Private, named("S", i), v);
    t->dep->abstractFlags.append(named("flag", i));
    if (prefixed[i]) {
        t->dynamicLinkPrefix = named("P", i);
        t->dep->abstractFlags.append("exceptions");
        if (g.kind[i] != HeaderOnly) args->addNonParticipatingFiles("", {"x.natvis"});
    }
    for (u32 a = 0; a < i; a++) {
        u32 j = g.downwards ? i - 1 - a : a;
        Visibility vis = g.edge[i][j] == 2 ? Visibility::Public : Visibility::Private;
        if (!g.edge[i][j]) continue;
        String name = named(g.kind[j] == External ? "x" : "t", j);
        if (qualify) name = StringView{"A."} + name;
        if (g.kind[j] == External) args->addExtern(vis, name);
        else args->addTarget(vis, name);
    }
}
// The lines of a list in the CMakeLists.txt of a target.
static StringView block(StringView text, StringView name) {
    String head = String::format("\n# {}\n", name);
    s32 at = -1;
    for (u32 i = 0; i + head.numBytes <= text.numBytes; i++)
        if (memcmp(text.bytes + i, head.bytes, head.numBytes) == 0) { CHECKM(at < 0, "a target is written once"); at = (s32) i; }
    CHECKM(at >= 0, "every target is written");
    StringView rest = text.subStr((u32) at + head.numBytes);
    for (u32 i = 0; i + 3 < rest.numBytes; i++)
        if (memcmp(rest.bytes + i, "\n# ", 3) == 0) return rest.left(i);
    return rest;
}
static bool listIn(StringView text, StringView head, Array<String>& out) {
    ViewInStream ins{text};
    bool in = false;
    while (StringView line = ins.readView<fmt::Line>()) {
        line = line.trim(isWhite);
        if (line == head) { in = true; continue; }
        if (in && line == ")") return true;
        if (in) {
            if (line.startsWith("\"")) { CHECK(line.endsWith("\"") && line.numBytes > 1); line = line.subStr(1, line.numBytes - 2); }
            out.append(line);
        }
    }
    CHECKM(!in, "lists are closed");
    return false;
}
static bool hasLine(StringView text, StringView want) {
    ViewInStream ins{text};
    while (StringView line = ins.readView<fmt::Line>()) if (line.trim(isWhite) == want) return true;
    return false;
}
static bool sameReversed(const Array<String>& a, const Array<String>& b) {
    if (a.numItems() != b.numItems()) return false;
    for (u32 i = 0; i < a.numItems(); i++) if (a[i] != b[a.numItems() - 1 - i]) return false;
    return true;
}
static void checkText(StringView text, const Dependency* dep) {
    const BuildTarget* t = dep->buildTarget;
    StringView b = block(text, t->name);
    static const char* heads[] = {"add_custom_target({} SOURCES", "add_library({}", "add_library({} OBJECT", "add_library({} SHARED", "add_executable({}"};
    Array<String> libs, objects;
    for (const String& l : dep->libs) (l.startsWith("$<TARGET_OBJECTS") ? objects : libs).append(l);
    for (u32 k = 0; k < 5; k++) {
        Array<String> items;
        bool found = listIn(b, String::format(heads[k], t->name), items);
        CHECKM(found == (k == (u32) t->targetType), "a target is added as what it is");
        if (!found) continue;
        u32 at = 0;
        if (t->sourceFiles) CHECKM(items.numItems() > at && items[at++] == String::format("${{{}_SOURCES}}", t->name.upperAsc()), "with its source files");
        if (k >= 3)
            for (u32 i = 0; i < objects.numItems(); i++) CHECKM(items.numItems() > at && items[at++] == objects[objects.numItems() - 1 - i], "with the object files it needs");
        CHECKM(items.numItems() == at, "and nothing else");
    }
    for (const auto& pair : t->sourceFiles) {
        Array<String> items;
        CHECKM(listIn(b, String::format("SetSourceFolders({}_SOURCES \"{}\"", t->name.upperAsc(), pair.root), items) && items.numItems() == pair.relFiles.numItems(), "source files");
        for (u32 i = 0; i < items.numItems(); i++) CHECKM(items[i] == pair.relFiles[i], "source files");
    }
    bool header = t->targetType == BuildTargetType::HeaderOnly;
    Array<String> dirs, defs, links, wanted;
    CHECKM(listIn(b, String::format("target_include_directories({} PRIVATE", t->name), dirs) == !header, "include folders are written");
    if (!header) CHECKM(sameReversed(dirs, t->privateIncludeDirs), "include folders are written");
    CHECKM(listIn(b, String::format("target_compile_definitions({} PRIVATE", t->name), defs) == (!header && t->privateDefines), "definitions are written");
    if (!header) {
        CHECK(defs.numItems() == t->privateDefines.numItems());
        for (u32 i = 0; i < defs.numItems(); i++) CHECKM(defs[i] == t->privateDefines[i].key + "=" + t->privateDefines[i].value, "definitions are written");
    }
    bool linked = t->targetType == BuildTargetType::EXE || t->targetType == BuildTargetType::DLL;
    CHECKM(listIn(b, String::format("target_link_libraries({} PRIVATE", t->name), links) == (linked && (dep->libs || dep->frameworks)), "libraries are written");
    if (linked) {
        for (u32 i = dep->frameworks.numItems(); i-- > 0;) {
            CHECKM(links && links.back() == String::format("${{{}_FRAMEWORK}}", dep->frameworks[i].upperAsc()), "frameworks are written");
            links.pop();
            CHECKM(hasLine(b, String::format("find_library({}_FRAMEWORK {})", dep->frameworks[i].upperAsc(), dep->frameworks[i])), "frameworks are written");
        }
        CHECKM(sameReversed(links, libs), "libraries are written, each before what it needs");
    }
    Array<String> dlls, shown;
    CHECKM(listIn(b, String::format("AddDLLCopyStep({}", t->name), dlls) == (linked && dep->dlls), "DLLs are copied");
    if (linked) CHECKM(sameReversed(dlls, dep->dlls), "DLLs are copied");
    bool exceptions = count(t->privateAbstractFlags, "exceptions") > 0;
    CHECKM(hasLine(b, String::format("EnableCppExceptions({} TRUE)", t->name)) == (!header && exceptions) && hasLine(b, String::format("EnableCppExceptions({} FALSE)", t->name)) == (!header && !exceptions), "exceptions are on where they are asked for");
    CHECKM(hasLine(b, String::format("set_property(TARGET {} PROPERTY ENABLE_EXPORTS TRUE)", t->name)) == (t->targetType == BuildTargetType::EXE), "programs export to their plug-ins");
    for (const auto& pair : t->nonParticipatingFiles)
        CHECKM(listIn(b, String::format("SetNonParticipatingFiles({}_SOURCES \"{}\"", t->name.upperAsc(), pair.root), shown) && shown.numItems() == 1 && shown[0] == "x.natvis", "files that are only shown");
    CHECKM((shown.numItems() > 0) == (t->nonParticipatingFiles.numItems() > 0), "files that are only shown");
}
ENTRY h_graph_project() {
    kern::reset();
    int at = kern::add(0, "b", Dir);
    (void) at;
    Project g;
    project = &g;
    g.n = (u32) sx_param("N", 3);
    u32 last = g.n - 1;
    pickEdges(g);
    bool shared = sx_pick(0, 1, "shared") != 0; // a shared library above everything but the program
    qualify = sx_param("QUALIFY", 0) != 0;
    bool ready = true;
    for (u32 i = 0; i < g.n; i++) {
        called[i] = 0; state[i] = Ready; prefixed[i] = false;
        static const ModKind kinds[] = {Lib, HeaderOnly, External};
        g.kind[i] = i == last ? EXE : shared && i == last - 1 ? DLL : kinds[sx_pick(0, 2, "kind")];
        if (g.kind[i] == External) state[i] = (State) sx_pick(0, sx_param("STATES", 2), "state");
        else if (i < last && sx_param("PREFIX", 1)) prefixed[i] = sx_pick(0, 1, "prefix") != 0;
        g.val[i] = (u8) sx_var(8, "v");
        ASSUME(g.val[i] >= 'a' && g.val[i] <= 'z');
    }
    for (u32 i = 0; i < g.n; i++)
        for (u32 j = 0; j < i; j++)
            if (g.kind[i] == External) ASSUME(g.edge[i][j] == 0);
    // What is instantiated, and inside what.
    bool present[MAX] = {};
    s32 container[MAX] = {-1, -1, -1, -1, -1};
    g.close();
    if (shared) for (u32 j = 0; j < g.n; j++) if (g.reaches[last - 1][j]) { present[j] = true; container[j] = (s32) last - 1; }
    for (u32 j = 0; j < g.n; j++) present[j] = present[j] || g.reaches[last][j];
    Project a = g; // without what is not available
    for (u32 i = 0; i < g.n; i++)
        for (u32 j = 0; j < i; j++)
            if (state[j] != Ready) a.edge[i][j] = 0;
    a.close();
    sx_mark_heap();
    {
        RepoRegistry::instance_ = new RepoRegistry;
        Repo* repo = new Repo;
        repo->repoName = "A";
        *RepoRegistry::instance_->repos.insertOrFind("A") = repo;
        ProjectInstantiationEnv env;
        env.buildFolderPath = "/b/";
        for (u32 i = 0; i < g.n; i++) {
            if (g.kind[i] == External) {
                repo->addExternProvider(named("x", i), "prov", externFunc);
                if (state[i] != Unselected) env.externSelectors.append(repo->externProviders.back());
            } else
                repo->addTargetInstantiator(new TargetInstantiator{named("t", i), "/src", repo, moduleFunc});
        }
        {
            ProjectInstantiationResult res;
            ProjectInstantiator inst;
            inst.env = &env;
            inst.result = &res;
            if (shared) inst.instantiate(RepoRegistry::get()->findTargetInstantiator(named("t", last - 1)), true);
            inst.instantiate(RepoRegistry::get()->findTargetInstantiator(named("A.t", last)), false);
            inst.propagateAllDependencies();
            // Every module that is needed, once
            u32 missing[2] = {};
            Dependency* of[MAX] = {};
            u32 entries = 0;
            for (u32 i = 0; i < g.n; i++) {
                CHECKM(called[i] == (present[i] && state[i] == Ready), "every module in need is instantiated once");
                entries += present[i];
                for (auto& e : res.dependencies) if (indexOfName(e.depSrc->name) == i) of[i] = e.dep;
                CHECKM((of[i] != nullptr) == (present[i] && state[i] == Ready), "and is in the result");
                if (present[i] && state[i] != Ready) missing[state[i] - 1]++;
            }
            CHECKM(res.dependencies.numItems() == entries, "nothing else is");
            CHECKM(res.unselectedExterns.numItems() == missing[0] && res.uninstalledProviders.numItems() == missing[1], "what is not available is reported, once");
            for (u32 i = 0; i < g.n; i++) {
                Dependency* dep = of[i];
                if (!dep || g.kind[i] == External) continue;
                BuildTarget* t = dep->buildTarget;
                bool inside = container[i] >= 0 && container[i] != (s32) i;
                BuildTargetType want = g.kind[i] == EXE ? BuildTargetType::EXE : g.kind[i] == DLL ? BuildTargetType::DLL : g.kind[i] == HeaderOnly ? BuildTargetType::HeaderOnly : inside && prefixed[i] ? BuildTargetType::ObjectLib : BuildTargetType::Lib;
                CHECKM(t->targetType == want, "type of a target");
                CHECKM(t->sharedContainer == (container[i] >= 0 ? of[container[i]]->buildTarget.get() : nullptr), "shared library that a target is part of");
                for (u32 j = 0; j < g.n; j++) {
                    if (!of[j]) continue;
                    String pub = named("/pub", j), own = named("/own", j), key = named("K", j), secret = named("S", j);
                    CHECKM(count(t->privateIncludeDirs, pub) == a.builds[i][j] && count(dep->includeDirs, pub) == a.sees[i][j], "include folders");
                    CHECKM(countKey(t->privateDefines, key) == a.builds[i][j] && countKey(dep->defines, key) == a.sees[i][j], "definitions");
                    CHECKM(!a.builds[i][j] || (valueOf(t->privateDefines, key).numBytes == 1 && valueOf(t->privateDefines, key)[0] == (char) g.val[j]), "value of a definition");
                    CHECKM(count(t->privateIncludeDirs, own) == (i == j) && countKey(t->privateDefines, secret) == (i == j), "private items");
                    bool exports = a.builds[i][j] && prefixed[j] && container[j] >= 0 && container[i] == container[j];
                    bool imports = a.builds[i][j] && prefixed[j] && container[j] >= 0 && container[i] != container[j];
                    CHECKM(countKey(t->privateDefines, named("P", j) + "_EXPORTING") == exports && countKey(t->privateDefines, named("P", j) + "_IMPORTING") == imports, "what is in the same shared library is exported, what is in another is imported");
                }
                bool exceptions = false;
                for (u32 j = 0; j < g.n; j++) exceptions = exceptions || (i != j && a.builds[i][j] && prefixed[j]);
                CHECKM(count(t->privateAbstractFlags, "exceptions") == exceptions, "flags");
                // Libraries: through a shared library if there is one
                bool want_[MAX] = {}, through = false;
                bool walked[MAX] = {};
                walked[i] = true;
                for (u32 k = i + 1; k-- > 0;)
                    if (walked[k])
                        for (u32 j = 0; j < k; j++)
                            if (a.edge[k][j]) {
                                if (g.kind[j] == External || container[j] == container[k]) { walked[j] = true; want_[j] = g.kind[j] != HeaderOnly; }
                                else want_[container[j]] = true;
                            }
                (void) through;
                u32 n = 0;
                for (u32 j = 0; j < g.n; j++) {
                    if (j == i) continue;
                    String lib = g.kind[j] == External ? named("-lx", j) : of[j] && of[j]->buildTarget->targetType == BuildTargetType::ObjectLib ? String::format("$<TARGET_OBJECTS:t{}>", j) : named("t", j);
                    CHECKM(count(dep->libs, lib) == want_[j], "libraries: all that is needed, once");
                    bool outer = want_[j] && g.kind[j] == External;
                    CHECKM(count(dep->dlls, named("/x/d", j)) == outer && count(dep->frameworks, named("Fw", j)) == outer, "DLLs and frameworks: all that is needed, once");
                    n += want_[j];
                }
                CHECKM(dep->libs.numItems() == n, "libraries: nothing else");
                ready = ready && true;
            }
            for (u32 i = 0; i < g.n; i++) ready = ready && !(present[i] && state[i] != Ready);
            if (ready) {
                MemOutStream mem;
                writeCMakeLists(&mem, "Sol", "/b/", &res, false);
                String text = mem.moveToString();
                u32 targets = 0, written = 0;
                for (u32 i = 0; i < g.n; i++)
                    if (of[i] && g.kind[i] != External) { checkText(text, of[i]); targets++; }
                for (u32 i = 0; i + 3 < text.numBytes; i++) written += memcmp(text.bytes + i, "\n# ", 3) == 0;
                CHECKM(written == targets, "nothing but the targets of the project is written");
            }
        }
        RepoRegistry::instance_.clear();
    }
    sx_check_leaks();
    sx_reach("end");
}

// Files of a folder: which are built, which are only listed.
ENTRY h_graph_sources() {
    kern::reset();
    int s = kern::add(0, "s", Dir);
    static const char* const names[] = {"a.cpp", "b.c", "c.h", "n.natvis", "t.txt", ".modules.cpp", "m.modules.cpp", "cpp", "Z.cpp"};
    static const u8 kinds[] = {2, 2, 1, 3, 0, 3, 3, 0, 2}; // 1: listed, 2: compiled, 3: shown, but not part of the build
    u32 n = (u32) sx_param("N", 3);
    String want[3][5];
    u32 count[3] = {};
    bool compiled = false, recursive = sx_pick(0, 1, "recursive") != 0, sub = sx_pick(0, 1, "sub") != 0;
    int d = sub ? kern::add(s, "d.h", Dir) : -1;
    auto note = [&](u32 kind, StringView rel) {
        if (!kind) return;
        u32 k = kind == 3 ? 2 : 1, at = count[k]++;
        for (; at > 0 && rel < want[k][at - 1]; at--) want[k][at] = want[k][at - 1];
        want[k][at] = rel;
        compiled = compiled || kind == 2;
    };
    u32 prev = 0;
    for (u32 i = 0; i < n; i++) {
        u32 which = (u32) sx_pick(0, 8, "file");
        bool down = sub && sx_pick(0, 1, "in") != 0;
        bool clash = false;
        for (int k = 1; k < kern::NODES; k++) clash = clash || (kern::node[k].kind == File && kern::node[k].parent == (down ? d : s) && kern::sameStr(kern::node[k].name, names[which]));
        ASSUME(!clash);
        kern::add(down ? d : s, names[which], File);
        if (!down || recursive) note(kinds[which], down ? String::format("d.h/{}", names[which]) : String{names[which]});
        prev = which;
    }
    (void) prev;
    // and a file with any three characters after its dot
    u32 len = (u32) sx_pick(0, 3, "len");
    char name[6] = {'k', '.'};
    for (u32 i = 0; i < len; i++) { name[2 + i] = (char) sx_var(8, "e"); ASSUME(name[2 + i] != 0 && name[2 + i] != '/'); }
    kern::add(s, name, 2 + len, File);
    auto low = [&](u32 i) { char c = name[2 + i]; return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; };
    u32 kind = 0, dot = 0; // what follows the last dot
    for (u32 i = 0; i < len; i++) if (name[2 + i] == '.') dot = i + 1;
    if (len - dot == 1 && low(dot) == 'c') kind = 2;
    if (len - dot == 1 && low(dot) == 'h') kind = 1;
    if (len - dot == 3 && low(dot) == 'c' && low(dot + 1) == 'p' && low(dot + 2) == 'p') kind = 2;
    note(kind, {name, 2 + len});
    sx_mark_heap();
    {
        Dependency dep;
        dep.buildTarget = new BuildTarget{&dep};
        BuildTarget* t = dep.buildTarget;
        t->addSourceFiles("/s", recursive);
        for (u32 k = 1; k <= 2; k++) {
            const auto& got = k == 1 ? t->sourceFiles : t->nonParticipatingFiles;
            CHECKM(got.numItems() == (count[k] > 0), "files of a folder are a group");
            if (!count[k]) continue;
            CHECKM(got[0].root == "/s" && got[0].relFiles.numItems() == count[k], "source and header files, and those that are only shown");
            for (u32 i = 0; i < count[k]; i++) CHECKM(got[0].relFiles[i] == want[k][i], "in order, relative to the folder");
        }
        CHECKM(t->anySourceFiles == compiled, "whether there is anything to compile");
        CHECKM(kern::openDirs == 0, "folders are closed");
    }
    sx_check_leaks();
    sx_reach("end");
}

// The text for targets of every kind.
ENTRY h_graph_text() {
    sx_mark_heap();
    {
        Project g;
        g.n = (u32) sx_param("N", 3);
        pickEdges(g);
        for (u32 i = 0; i < g.n; i++) {
            g.kind[i] = i + 1 < g.n ? (ModKind) sx_pick(0, 3, "kind") : sx_pick(0, 1, "shared") ? DLL : EXE;
            g.val[i] = (u8) sx_var(8, "v");
            ASSUME(g.val[i] >= 'a' && g.val[i] <= 'z');
        }
        g.close();
        Array<Owned<Dependency>> deps;
        CMakeBuildFolder folder;
        folder.solutionName = "Sol";
        folder.absPath = "/b/";
        for (u32 i = 0; i < g.n; i++) {
            makeDep(g, i, deps);
            if (BuildTarget* t = deps[i]->buildTarget) {
                t->sourceFiles.append({named("/src", i), {"a.cpp", "sub/b.h"}});
                folder.targets.append(deps[i]);
            }
        }
        for (u32 i = 0; i < g.n; i++) propagateDependencyProperties(deps[i]);
        MemOutStream mem;
        writeCMakeLists(&mem, &folder);
        String text = mem.moveToString();
        for (u32 i = 0; i < g.n; i++) {
            checkTarget(g, i, deps[i]);
            if (deps[i]->buildTarget) checkText(text, deps[i]);
        }
    }
    sx_check_leaks();
    sx_reach("end");
}
