// C25: names of modules, externs and providers, and what identifies a build folder.
// SX: srcdef FileSystem_POSIX -include kredirect.h
// SX: srcdef Pipe_FD -include kredirect.h
// SX: exclude container/Hash128.cpp
#define KERN_DATA 500
#include "kernel.h"
#include <ply-build-repo/Module.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-folder/BuildFolder.h>
#include <ply-runtime/container/Hash128.h>

// What is hashed, instead of a hash of it.
static const u32 RECORDED = 400;
static struct Record { char p[RECORDED]; u32 n; } records[2];
static Record* record;
Hash128::Hash128() {}
void Hash128::append(StringView v) {
    CHECK(record && record->n + v.numBytes <= RECORDED);
    memcpy(record->p + record->n, v.bytes, v.numBytes);
    record->n += v.numBytes;
}
u128 Hash128::get() const { return 0; }
u128 Hash128::compute(StringView) { return 0; }

static ExternResult noExtern(ExternCommand, ExternProviderArgs*) { return {ExternResult::Unknown, ""}; }
static void noModule(ModuleArgs*) {}

static bool starts(u8 c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 128; }
static bool inside(u8 c) { return starts(c) || (c >= '0' && c <= '9') || c == '-'; }
ENTRY h_names_split() {
    u32 n = (u32) sx_pick(0, sx_param("N", 5), "n");
    SxBuf b(n, "b");
    ErrorHandler::current = {}; // made for this thread on first use
    sx_mark_heap();
    {
        u32 begin[8], end[8], count = 0, at = 0;
        bool ok = n > 0;
        while (ok) {
            u32 start = at;
            if (at < n && (starts(b.p[at]) || b.p[at] == '-')) { at++; while (at < n && inside(b.p[at])) at++; }
            ok = at > start;
            if (!ok) break;
            begin[count] = start; end[count++] = at;
            if (at == n) break;
            ok = b.p[at++] == '.';
        }
        Array<StringView> comps = splitName({(const char*) b.p, n}, "name");
        CHECKM(comps.numItems() == (ok ? count : 0), "a name is identifiers with a dot between them, or is refused");
        for (u32 i = 0; i < comps.numItems(); i++) CHECKM(comps[i].bytes == (const char*) b.p + begin[i] && comps[i].numBytes == end[i] - begin[i], "components of a name");
    }
    sx_check_leaks();
    sx_reach("end");
}

static const char* const tokens[] = {"A", "B", "x", "p", "q"};
ENTRY h_names_find() {
    // Two repos, B within A or next to it, each with an extern x, a module x and providers p, q for either extern
    bool nested = sx_pick(0, 1, "nested") != 0;
    bool hasExtern[2], hasModule[2];
    s32 prov[2][2]; // provider p or q in a repo: for the extern of which repo
    for (u32 r = 0; r < 2; r++) { hasExtern[r] = sx_pick(0, 1, "extern") != 0; hasModule[r] = sx_pick(0, 1, "module") != 0; }
    for (u32 r = 0; r < 2; r++)
        for (u32 k = 0; k < 2; k++) {
            prov[r][k] = k && !sx_param("Q", 1) ? -1 : (s32) sx_pick(0, 2, "prov") - 1;
            ASSUME(prov[r][k] < 0 || hasExtern[prov[r][k]]);
            ASSUME(prov[r][k] < 0 || prov[r][k] == (s32) r || (r == 0 && nested)); // only repos within
        }
    u32 n = (u32) sx_pick(1, sx_param("N", 4), "n"), c[5];
    String name;
    for (u32 i = 0; i < n; i++) { c[i] = (u32) sx_pick(0, 4, "token"); name = i ? name + "." + tokens[c[i]] : String{tokens[c[i]]}; }
    ErrorHandler::current = {}; // made for this thread on first use
    sx_mark_heap();
    {
        RepoRegistry::instance_ = new RepoRegistry;
        const RepoRegistry* reg = RepoRegistry::get();
        Repo* repo[2];
        DependencySource* ext[2] = {};
        for (u32 r = 0; r < 2; r++) {
            repo[r] = new Repo;
            repo[r]->repoName = tokens[r];
            *RepoRegistry::instance_->repos.insertOrFind(tokens[r]) = repo[r];
            if (hasExtern[r]) {
                ext[r] = new DependencySource{DependencySource::Extern};
                ext[r]->name = "x"; ext[r]->repo = repo[r];
                repo[r]->externs.append(ext[r]);
            }
            if (hasModule[r]) repo[r]->addTargetInstantiator(new TargetInstantiator{"x", "/", repo[r], noModule});
        }
        if (nested) repo[0]->childRepos.append(repo[1]);
        const ExternProvider* provider[2][2] = {};
        for (u32 r = 2; r-- > 0;)
            for (u32 k = 0; k < 2; k++) {
                if (prov[r][k] < 0) continue;
                repo[r]->addExternProvider(String::format("{}.x", tokens[prov[r][k]]), tokens[3 + k], noExtern);
                provider[r][k] = repo[r]->externProviders.back();
                CHECKM(provider[r][k]->extern_ == ext[prov[r][k]] && provider[r][k]->repo == repo[r] && provider[r][k]->providerName == tokens[3 + k], "a provider is for the extern that was named");
            }
        for (u32 r = 0; r < 2; r++) CHECKM(repo[r]->externs.numItems() == hasExtern[r], "no extern is made up");
        // What the name stands for
        u32 logged = 0;
        {
            ErrorHandler::current = [&](ErrorHandler::Level, HybridString&&) { logged++; };
            u32 at = c[0] < 2;
            bool only = n == at + 1 && c[at] == 2;
            const TargetInstantiator* module = nullptr;
            const DependencySource* ex = nullptr;
            const ExternProvider* want = nullptr;
            if (at < n && c[at] == 2) {
                bool either = hasModule[0] != hasModule[1], eitherEx = hasExtern[0] != hasExtern[1];
                if (at) { module = repo[c[0]]->findTargetInstantiatorImm("x"); ex = ext[c[0]]; }
                else {
                    if (either) module = repo[hasModule[1]]->findTargetInstantiatorImm("x");
                    if (eitherEx) ex = ext[hasExtern[1]];
                }
            }
            if (ex) {
                u32 rest = n - at - 1, e = ex == ext[1];
                const u32* d = c + at + 1;
                if (rest == 1 && d[0] >= 3) {
                    const ExternProvider* a = prov[0][d[0] - 3] == (s32) e ? provider[0][d[0] - 3] : nullptr;
                    const ExternProvider* b = prov[1][d[0] - 3] == (s32) e ? provider[1][d[0] - 3] : nullptr;
                    want = a && b ? (at ? (e ? b : a) : nullptr) : a ? a : b;
                } else if (rest == 2 && d[0] < 2 && d[1] >= 3 && prov[d[0]][d[1] - 3] == (s32) e)
                    want = provider[d[0]][d[1] - 3];
            }
            logged = 0;
            const TargetInstantiator* gotModule = reg->findTargetInstantiator(name);
            CHECKM(gotModule == (only ? module : nullptr), "a module is found by its name, with its repo if need be");
            CHECKM((logged > 0) == !gotModule, "or there is a message");
            logged = 0;
            const DependencySource* gotExtern = reg->findExtern(name);
            CHECKM(gotExtern == (only ? ex : nullptr), "an extern is found by its name, with its repo if need be");
            CHECKM((logged > 0) == !gotExtern, "or there is a message");
            logged = 0;
            const ExternProvider* gotProvider = reg->getExternProvider(name);
            CHECKM(gotProvider == want, "a provider is found by its name, with repos if need be");
            CHECKM((logged > 0) == !gotProvider, "or there is a message");
            if (n == 1 && c[0] == 0) {
                // Names that are shown or saved stand for what they were made from
                for (u32 r = 0; r < 2; r++) {
                    if (ext[r]) CHECKM(reg->findExtern(ext[r]->getFullyQualifiedName()) == ext[r] && reg->findExtern(reg->getShortDepSourceName(ext[r])) == ext[r], "names of an extern stand for it");
                    if (hasModule[r]) {
                        const TargetInstantiator* m = repo[r]->findTargetInstantiatorImm("x");
                        CHECKM(reg->findTargetInstantiator(m->getFullyQualifiedName()) == m, "the full name of a module stands for it");
                    }
                    for (const ExternProvider* p : repo[r]->externProviders)
                        CHECKM(reg->getExternProvider(p->getFullyQualifiedName()) == p && reg->getExternProvider(reg->getShortProviderName(p)) == p, "names of a provider stand for it");
                }
            }
            ErrorHandler::current = {};
        }
        RepoRegistry::instance_.clear();
    }
    sx_check_leaks();
    sx_reach("end");
}

static String someString(u32 most) { u32 n = (u32) sx_pick(0, most, "len"); String s = String::allocate(n); for (u32 i = 0; i < n; i++) s.bytes[i] = (char) sx_var(8, "c"); return s; }
static bool same(const Array<String>& a, const Array<String>& b) {
    if (a.numItems() != b.numItems()) return false;
    for (u32 i = 0; i < a.numItems(); i++) if (a[i] != b[i]) return false;
    return true;
}
static void signature(const BuildFolder& f, Record& r) { r.n = 0; record = &r; f.currentBuildSystemSignature(); record = nullptr; }
ENTRY h_names_signature() {
    sx_mark_heap();
    {
        RepoRegistry::instance_ = new RepoRegistry;
        u32 most = (u32) sx_param("LEN", 1), items = (u32) sx_param("ITEMS", 1), which = (u32) sx_param("WHICH", 0);
        BuildFolder f[2];
        for (u32 i = 0; i < 2; i++) {
            // Two neighbouring fields, and lists
            String* texts[] = {&f[i].solutionName, &f[i].cmakeOptions.generator, &f[i].cmakeOptions.platform, &f[i].cmakeOptions.toolset, &f[i].cmakeOptions.toolchainFile};
            Array<String>* lists[] = {&f[i].rootTargets, &f[i].makeShared, &f[i].externSelectors};
            for (u32 k = 0; k < 5; k++) if (k == which || k == which + 1) *texts[k] = someString(most);
            for (u32 k = 0; k < 3; k++)
                if (k + 5 == which || k + 5 == which + 1)
                    for (u32 j = (u32) sx_pick(0, items, "items"); j > 0; j--) lists[k]->append(someString(most));
            signature(f[i], records[i]);
        }
        bool equal = f[0].solutionName == f[1].solutionName && f[0].cmakeOptions.generator == f[1].cmakeOptions.generator && f[0].cmakeOptions.platform == f[1].cmakeOptions.platform && f[0].cmakeOptions.toolset == f[1].cmakeOptions.toolset && f[0].cmakeOptions.toolchainFile == f[1].cmakeOptions.toolchainFile && same(f[0].rootTargets, f[1].rootTargets) && same(f[0].makeShared, f[1].makeShared) && same(f[0].externSelectors, f[1].externSelectors);
        bool hashed = records[0].n == records[1].n && sx_eq(records[0].p, records[1].p, records[0].n);
        CHECKM(equal == hashed, "folders have the same signature exactly if they ask for the same");
        RepoRegistry::instance_.clear();
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_names_signature_text() {
    u128 sig;
    sig.hi = 0; sig.lo = 0;
    // any digits within a window
    u32 at = (u32) sx_pick(0, 15, "at");
    u64 w = sx_var(8, "digits");
    bool high = sx_pick(0, 1, "high") != 0;
    u64 fill = sx_pick(0, 1, "fill") ? 0xfedcba9876543210ull : 0;
    sig.hi = sig.lo = fill;
    u64& half = high ? sig.hi : sig.lo;
    half = (half & ~(u64(255) << (4 * at))) | (w << (4 * at));
    sx_mark_heap();
    {
        String s = signatureToString(sig);
        CHECKM(s.numBytes == 32, "a signature is 32 digits");
        for (u32 i = 0; i < 32; i++) CHECKM((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') || (s[i] >= 'A' && s[i] <= 'F'), "a signature is 32 digits");
        CHECKM(parseSignatureString(s) == sig, "a signature is read back as it was written");
        CHECKM(parseSignatureString(s.left(31)) == 0 && parseSignatureString(s + "0") == 0, "text of another length is no signature");
    }
    sx_check_leaks();
    sx_reach("end");
}
ENTRY h_names_output() {
    sx_mark_heap();
    {
        static const BuildTargetType types[] = {BuildTargetType::EXE, BuildTargetType::DLL, BuildTargetType::Lib};
        static const char* const prefix[] = {"", "lib", "lib"};
        static const char* const suffix[] = {"", ".so", ".a"};
        u32 k = (u32) sx_pick(0, 2, "type");
        u8 c = (u8) sx_var(8, "c"), d = (u8) sx_var(8, "d");
        ASSUME(c >= 'a' && c <= 'z' && d >= 'a' && d <= 'z');
        String name = StringView{(const char*) &c, 1} + "t", config = StringView{"D"} + StringView{(const char*) &d, 1};
        String want = StringView{"/f/build/"} + config + "/" + prefix[k] + name + suffix[k];
        CHECKM(getTargetOutputPath(types[k], name, "/f/", config) == want, "path of what is built");
        CHECKM(getTargetOutputPath(types[k], name, "/f", config) == want, "path of what is built");
    }
    sx_check_leaks();
    sx_reach("end");
}
static String someText(u32 most) { String s = someString(most); for (u32 i = 0; i < s.numBytes; i++) ASSUME((u8) s.bytes[i] < 128 && s.bytes[i] != 0); return s; }
ENTRY h_names_saved() {
    kern::reset();
    sx_mark_heap();
    {
        Owned<BuildFolder> f = BuildFolder::create("f", "S");
        String* texts[] = {&f->solutionName, &f->cmakeOptions.generator, &f->cmakeOptions.platform, &f->cmakeOptions.toolset, &f->cmakeOptions.toolchainFile, &f->activeConfig, &f->activeTarget};
        Array<String>* lists[] = {&f->rootTargets, &f->makeShared, &f->externSelectors};
        u32 which = (u32) sx_pick(0, 11, "which"); // any text in one place, something else in the others
        for (u32 k = 0; k < 7; k++) *texts[k] = String::format("t{}", k);
        for (u32 k = 0; k < 3; k++) for (u32 j = 0; j < k; j++) lists[k]->append(String::format("l{}", k * 3 + j));
        if (which < 7) *texts[which] = someText((u32) sx_param("LEN", 1));
        else if (which < 10) lists[which - 7]->append(someText((u32) sx_param("LEN", 1)));
        else if (which == 11) f->buildSystemSignature = pylon::Node::createText(someText(1)); // of a generator for several configurations
        else f->buildSystemSignature->set("Debug", pylon::Node::createText(someText(1)));
        for (u32 round = 0; round < 2; round++) {
            CHECKM(f->save(), "a build folder is saved");
            Owned<BuildFolder> g = BuildFolder::load("f");
            CHECKM(!!g, "a build folder that was saved can be loaded");
            CHECKM(g->buildFolderName == "f" && g->solutionName == f->solutionName && g->cmakeOptions.generator == f->cmakeOptions.generator && g->cmakeOptions.platform == f->cmakeOptions.platform && g->cmakeOptions.toolset == f->cmakeOptions.toolset && g->cmakeOptions.toolchainFile == f->cmakeOptions.toolchainFile && g->activeConfig == f->activeConfig && g->activeTarget == f->activeTarget, "settings are loaded as they were saved");
            CHECKM(same(g->rootTargets, f->rootTargets) && same(g->makeShared, f->makeShared) && same(g->externSelectors, f->externSelectors), "lists are loaded as they were saved");
            CHECKM(g->buildSystemSignature->isObject() == f->buildSystemSignature->isObject() && g->buildSystemSignature->text() == f->buildSystemSignature->text(), "signatures are loaded as they were saved");
            if (which != 11) CHECKM(g->buildSystemSignature->get("Debug")->text() == f->buildSystemSignature->get("Debug")->text() && g->buildSystemSignature->get("Debug")->isText() == f->buildSystemSignature->get("Debug")->isText(), "signatures are loaded as they were saved");
            f = std::move(g); // and again
        }
        CHECKM(kern::openFds == 0, "files are closed");
    }
    sx_check_leaks();
    sx_reach("end");
}
