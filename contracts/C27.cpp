// Files of a project: the parts of their names, and folders
// VC-SOURCES: core/filesystem/Project.cpp
// VC-ONLY: native
#include "vc.h"
#include "filesystem/Project.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <ftw.h>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>
using SEMBA::FileSystem::Project;

namespace {
// without repeated nor final separators
std::string normal(const std::string& s) {
    std::string r;
    for (char c : s)
        if (c != '/' || r.empty() || r[r.size() - 1] != '/') r += c;
    if (r.size() > 1 && r[r.size() - 1] == '/') r.erase(r.size() - 1);
    return r;
}
// every name of up to n of these characters
void all(const std::string& letters, size_t n, const std::string& s, const std::function<void(const std::string&)>& f) {
    f(s);
    if (n)
        for (char c : letters) all(letters, n - 1, s + c, f);
}
// a folder of its own, left empty and removed afterwards; whoever runs this can do nothing outside of it
struct Scratch {
    std::string dir;
    char before[4096];
    bool root;
    Scratch() : root(geteuid() == 0) {
        if (root && (setgroups(0, 0) || setresgid(65534, 65534, 0) || setresuid(65534, 65534, 0))) {
            std::cerr << "cannot become an unprivileged user: nothing is done" << std::endl;
            REQUIRES(false);
        }
        char name[] = "/tmp/vcprojXXXXXX";
        dir = mkdtemp(name);
        if (!getcwd(before, sizeof before)) std::abort();
        if (chdir(dir.c_str())) std::abort();
    }
    ~Scratch() {
        if (chdir(before)) std::abort();
        nftw(dir.c_str(), [](const char* n, const struct stat*, int, struct FTW*) { return remove(n); }, 8, FTW_DEPTH | FTW_PHYS);
        if (root && (setresuid(0, 0, 0) || setresgid(0, 0, 0))) std::abort();
    }
};
bool folder(const std::string& s) {
    struct stat b;
    return stat(s.c_str(), &b) == 0 && S_ISDIR(b.st_mode);
}
}

VC_NATIVE(names, "Project::getFolder, Project::getBasename, Project::getExtension, Project::getProjectName, Project::getOutputFilename, Project::getFilename", "every name of up to seven characters a, b, point and separator") {
    all("ab./", 7, "", [](const std::string& s) {
        const Project p(s), q(p);
        std::string f = p.getFolder(), b = p.getBasename(), n = p.getProjectName(), x = p.getExtension();
        ENSURES("asking for parts of a name leaves it", p == s && p.getFilename() == s && q == s && p.toStr() == s);
        ENSURES("a folder ends with a separator", !f.empty() && f[f.size() - 1] == '/');
        std::string m = normal(s);
        if (!m.empty() && m != "/") {
            size_t k = m.rfind('/');
            ENSURES("the base name is what follows the last separator", b == (k == std::string::npos ? m : m.substr(k + 1)));
            ENSURES("the folder is what comes before", normal(f) == (k == std::string::npos ? "." : k == 0 ? "/" : m.substr(0, k)));
            size_t d = b.rfind('.');
            bool ext = d != std::string::npos && d > 0;
            ENSURES("the name of the project is the base name without extension", n == (ext ? b.substr(0, d) : b));
            ENSURES("output goes next to the project", p.getOutputFilename() == f + n && p.getOutputName() == n);
            if (ext && s[s.size() - 1] != '/') ENSURES("the extension is what is left of the base name", x == b.substr(d) && n + x == b);
            if (!ext && d == std::string::npos) ENSURES("what has no point has no extension", x == s);
        }
    });
}

VC_NATIVE(relative, "Project::relativeTo", "every pair of names of up to four characters a, point and separator in a folder that is not there") {
    Scratch w;
    all("a./", 4, "", [&](const std::string& s) {
        if (s.empty() || s[0] == '/') return;
        Project f(w.dir + "/no/" + s);
        std::string g = f.getFolder();
        all("ab/", 3, "", [&](const std::string& t) {
            if (!t.empty() && t[0] == '/') return;
            ENSURES("a name in a folder is what follows it", Project(g + t).relativeTo(f) == t);
        });
    });
    mkdir("data", 0700);
    mkdir("data/data", 0700);
    ENSURES("names are relative to a folder that exists", Project("data/data/file").relativeTo(Project("data/")) == "data/file" && Project("data/file").relativeTo(Project("data")) == "file" && Project(w.dir + "/data/x").relativeTo(Project(w.dir)) == "data/x" && Project("data/data/file").relativeTo(Project("data/other")) == "data/file");
    ENSURES("the folder is where the name starts", Project("other/data/file").relativeTo(Project("data/")) == "other/data/file" && Project("data1/file").relativeTo(Project("data")) == "data1/file");
    rmdir("data/data");
    rmdir("data");
}

VC_NATIVE(folders, "Project::isFolder, Project::makeDir, Project::rmDir, Project::changeDir, Project::canOpen, Project::openFile, Project::openAsInput, Project::canExecute, Project::getFullPath, Project::setToCurrentWorkingDir", "twelve names with spaces, points and quotes, in a folder made for it") {
    const char* names[] = {"a", "a b", "a.b", "-r", "a'b", "a\"b", "a;b", "a$b", "a*", "a&b", "#a", "(a)"};
    long i = vc::integer("name", 0, 11);
    Scratch w;
    std::string full = w.dir + "/" + names[i];
    // what a careless deletion would take with it
    mkdir("keep", 0700);
    for (const char* n : {"keep/a", "keep/b", "keep/ab"}) std::ofstream(n) << "kept";
    if (i != 0) mkdir("a", 0700);
    std::ofstream("b") << "kept";
    Project p(full), rel(names[i]);
    ENSURES("what is not there is no folder", !p.isFolder() && !p.canOpen() && !p.canExecute());
    ENSURES("nor is a file", !Project("b").isFolder() && Project("b").canOpen() && !Project("b").canExecute());
    p.makeDir();
    ENSURES("a folder is made", folder(full) && p.isFolder() && rel.isFolder() && p.canExecute());
    p.makeDir();
    Project inside(full + "/file.txt");
    std::ofstream o;
    inside.openFile(o);
    o << "some text";
    o.close();
    std::ifstream in;
    inside.openAsInput(in);
    std::string a, b;
    in >> a >> b;
    ENSURES("what is written to a file is read from it", inside.canOpen() && !inside.isFolder() && a == "some" && b == "text");
    ENSURES("making a folder again keeps what is in it", folder(full));
    ENSURES("the full path of a name leads to it", rel.getFullPath() == full + "/" && Project(std::string(names[i]) + "/../" + names[i] + "/file.txt").getFullPath() == full + "/file.txt");
    if (i != 3) {
        p.changeDir();
        Project here;
        here.setToCurrentWorkingDir();
        ENSURES("the working folder is the one changed to", here == full && Project("file.txt").canOpen());
        if (chdir(w.dir.c_str())) std::abort();
    }
    p.rmDir();
    ENSURES("a folder is removed with what it holds", !p.isFolder() && !inside.canOpen());
    ENSURES("nothing else is removed", Project("b").canOpen() && Project("keep/a").canOpen() && Project("keep/b").canOpen() && Project("keep/ab").canOpen() && (i == 0 || folder("a")));
    p.rmDir();
    if (i != 0) rmdir("a");
    for (const char* n : {"keep/a", "keep/b", "keep/ab", "b"}) unlink(n);
    rmdir("keep");
}

VC_NATIVE(programs, "Project::exec, Project::canExecute", "four names, in a folder made for it") {
    const char* names[] = {"run", "run it", "run'it", "run;it"};
    long i = vc::integer("name", 0, 3);
    Scratch w;
    std::string full = w.dir + "/" + names[i];
    {
        std::ofstream s(full);
        s << "#!/bin/sh\necho \"$1-$2\" > \"" << w.dir << "/out\"\n";
    }
    Project p(full);
    ENSURES("a file that is not a program is refused", !p.canExecute() && ([&]() -> bool { try { p.exec("x y"); return false; } catch (...) { return true; } }()));
    chmod(full.c_str(), 0700);
    p.exec("x y");
    std::ifstream in(w.dir + "/out");
    std::string a;
    in >> a;
    ENSURES("a program gets its arguments", p.canExecute() && a == "x-y");
    unlink(full.c_str());
    unlink((w.dir + "/out").c_str());
}
