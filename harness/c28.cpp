// C28: paths. A tree of directories and files in the scratch folder, random chains of constructions, appends, copies, assignments, parents; every object is compared
// with a path resolved component by component, with the operating system's own resolution, and again after all the operations on other objects.
#include "vt.hpp"
#include "utility/file.hpp"
#include <set>
#include <memory>
using vt::Rng;
static std::string root;               // the scratch tree
static std::vector<std::string> NAMES = {"a", "b", "dir.ext", ".hidden", "..x", "...", "file.txt", "noext", "x.tar.gz", "trail.", "with space.p n", ".h.cfg", "Ünï.png", "c", "-", "~", "a.b.c", "..."};
static std::string resolve(const std::string& base, const std::string& rel)   // base absolute and normal
{
    std::vector<std::string> c; auto add = [&](const std::string& s) { size_t i = 0; while(i<=s.size()) { size_t e = i; while(e<s.size() && s[e] != '/' && s[e] != '\\') e++; std::string w = s.substr(i, e-i); i = e+1; if(w.empty() || w == ".") continue; if(w == "..") { if(!c.empty()) c.pop_back(); } else c.push_back(w); } };
    add(base); add(rel); std::string o; for(auto& w : c) o += "/"+w; return o.empty()?"/":o;
}
static std::string base_name(const std::string& p) { if(p == "/") return p; return p.substr(p.rfind('/')+1); }
static bool isdir(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static bool isreg(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
static std::string ext_of(const std::string& p) { if(isdir(p)) return ""; std::string f = base_name(p); size_t d = f.rfind('.'); if(d == std::string::npos || d == 0) return ""; return f.substr(d+1); }
static bool check(const File& f, const std::string& want, const std::string& how)
{
    vt::eval(vt::hash_str(how+want)); const char* bad = NULL; std::string got, exp;
    auto cmp = [&](const char* what, const std::string& g, const std::string& e) { if(!bad && g != e) { bad = what; got = g; exp = e; } };
    cmp("path", f.absolute_path(), want); cmp("name", f.filename(), base_name(want)); cmp("extension", f.extension(), ext_of(want));
    cmp("exists", f.exists()?"1":"0", access(want.c_str(), F_OK) == 0?"1":"0"); cmp("folder", f.is_folder()?"1":"0", isdir(want)?"1":"0"); cmp("file", f.is_file()?"1":"0", isreg(want)?"1":"0");
    cmp("readable", f.readable()?"1":"0", access(want.c_str(), R_OK) == 0?"1":"0"); cmp("writable", f.writable()?"1":"0", access(want.c_str(), W_OK) == 0?"1":"0");
    if(bad) { vt::violation(bad, "%s: '%s' instead of '%s' (%s)", how.c_str(), got.c_str(), exp.c_str(), want.c_str()); return false; }
    vt::count(isdir(want)?"paths naming folders":isreg(want)?"paths naming files":"paths naming nothing"); return true;
}
static std::string comp(Rng& r) { double u = r.u(); if(u<.16) return "."; if(u<.36) return ".."; if(u<.42) return ""; return NAMES[r.irange(0, (int)NAMES.size()-1)]; }
static std::string relp(Rng& r) { std::string s; int n = r.irange(0, 6); if(r.chance(.08)) s += "/"; for(int i = 0; i<n; i++) { if(i) s += r.chance(.85)?"/":r.chance(.5)?"//":"\\"; s += comp(r); } if(r.chance(.2)) s += r.chance(.8)?"/":"//"; return s; }
struct Slot { std::unique_ptr<File> f; std::string want; std::string how; };
int main(int argc, char** argv)
{
    vt::init(argc, argv, "links and special files; chains of File constructions, appends, parents, copies and assignments over a scratch tree with folders, files, hidden names, dots and spaces; every object compared with component-wise resolution and with realpath, stat and access, also after the others changed; mkdir, mkdirs and ls compared with the resulting tree");
    char* rp = realpath(vt::S().scratch.c_str(), NULL); root = std::string(rp)+"/tree"; free(rp);
    mkdir(root.c_str(), 0755);
    for(const char* d : {"a", "a/b", "a/b/c", "b", "dir.ext", "dir.ext/a", ".hidden", "..x", "...", "...", ".../a", "c", "c/..x"}) mkdir((root+"/"+d).c_str(), 0755);
    for(const char* f : {"file.txt", "a/file.txt", "a/b/x.tar.gz", "a/noext", "b/.h.cfg", "b/trail.", "dir.ext/with space.p n", "c/a.b.c", ".../Ünï.png", "a/b/c/file.txt"}) vt::write_file(root+"/"+f, "x");
    std::vector<std::string> cwds = {root, root+"/a", root+"/a/b/c", root+"/dir.ext", "/", "/tmp", root+"/..."};
    // last parts that are symbolic links (to files, folders, nothing, each other) or special files: every question is answered as the system answers it
    mkdir((root+"/links").c_str(), 0755); std::vector<std::string> L = {"to.file", "to.dir", "gone.png", "loop.a", "loop.b", "chain", "pipe.f", "sock", "deep.tga", ".hid"};
    const char* TO[][2] = {{"to.file", "../file.txt"}, {"to.dir", "../a"}, {"gone.png", "../nothing.png"}, {"loop.a", "loop.b"}, {"loop.b", "loop.a"}, {"chain", "to.file"}, {"sock", "to.dir"}, {"deep.tga", "../a/b/x.tar.gz"}, {".hid", "to.dir"}}; for(auto& l : TO) if(symlink(l[1], (root+"/links/"+l[0]).c_str())) {} mkfifo((root+"/links/pipe.f").c_str(), 0644);
    vt::cases("links", vt::n(400, 4000), [&](Rng& r, long) {
        std::string cwd = r.chance(.5)?root:root+"/links"; if(chdir(cwd.c_str())) return; std::string nm = r.pick(L), want = root+"/links/"+nm, p = r.chance(.5)?want:cwd == root?"links/"+nm:"./"+nm; std::unique_ptr<File> f(new File(p.c_str())); std::string how = "File(\""+p+"\") in "+cwd;
        if(r.chance(.3)) { f.reset(new File((root+"/links").c_str())); f->append(nm.c_str()); how = "File(links).append(\""+nm+"\")"; } vt::count("paths ending in links and special files"); check(*f, want, how);
    });
    vt::cases("chains", vt::n(80000, 1500000), [&](Rng& r, long) {
        std::string cwd = cwds[r.irange(0, (int)cwds.size()-1)]; if(chdir(cwd.c_str())) return; std::vector<Slot> s; int n = r.irange(2, 12);
        for(int i = 0; i<n; i++)
        {
            int op = s.empty()?0:r.irange(0, 6);
            if(op<=1)
            {
                std::string p = relp(r), want; if(r.chance(.4)) { p = (r.chance(.9)?root:std::string("/"))+(r.chance(.9)?"/":"//")+p; } bool abs = !p.empty() && p[0] == '/'; want = resolve(abs?"/":cwd, p); Slot x; x.how = vt::fmt("File(\"%s\") in %s", p.c_str(), cwd.c_str()); x.f.reset(new File(p.c_str())); x.want = want; s.push_back(std::move(x));
                if(access(want.c_str(), F_OK) == 0) { char* o = realpath(p.empty()?".":p.c_str(), NULL); if(o) { vt::count("resolved by the system too"); if(want != o && p.find('\\') == std::string::npos) { vt::violation("system", "%s is %s for the system, %s here", p.c_str(), o, want.c_str()); } free(o); } }
            }
            else
            {
                Slot& x = s[r.irange(0, (int)s.size()-1)];
                if(op<=3) { std::string p = relp(r); x.how += ".append(\""+p+"\")"; x.want = resolve(x.want, p); File& back = x.f->append(p.c_str()); if(&back != x.f.get()) vt::violation("append-result", "append does not return the object"); }
                else if(op == 4) { Slot y; y.f.reset(new File(*x.f)); y.want = x.want; y.how = "copy of "+x.how; s.push_back(std::move(y)); }
                else if(op == 5) { Slot& y = s[r.irange(0, (int)s.size()-1)]; *x.f = *y.f; x.want = y.want; x.how = "assigned from "+y.how; }
                else { Slot y; y.f.reset(new File(x.f->get_parent())); y.want = resolve(x.want, ".."); y.how = x.how+".get_parent()"; s.push_back(std::move(y)); }
            }
            for(auto& x : s) if(!check(*x.f, x.want, x.how)) return;
            if(r.chance(.2)) s.erase(s.begin()+r.irange(0, (int)s.size()-1));
        }
    });
    vt::cases("make", vt::n(1500, 20000), [&](Rng& r, long idx) {
        std::string top = root+vt::fmt("/mk%ld", idx); mkdir(top.c_str(), 0755); if(chdir(top.c_str())) return; vt::write_file(top+"/plain", "x");
        for(int k = 0; k<4; k++)
        {
            std::string rel; int n = r.irange(1, 4); for(int i = 0; i<n; i++) { if(i) rel += r.chance(.9)?"/":"//"; rel += r.chance(.12)?"..":r.chance(.1)?".":r.chance(.1)?"plain":vt::fmt("d%d%s", r.irange(0, 2), r.chance(.2)?".x":""); }
            File f(r.chance(.5)?rel.c_str():(top+"/"+rel).c_str()); std::string want = resolve(top, rel); if(want.compare(0, root.size(), root)) continue; bool all = r.chance(.6); bool was = access(want.c_str(), F_OK) == 0; std::string par = resolve(want, ".."); bool parent = isdir(par), blocked = false; for(std::string q = want; q.size()>root.size(); q = resolve(q, "..")) if(isreg(q)) blocked = true;
            bool got = all?f.mkdirs():f.mkdir(), exp = !was && (all?!blocked:parent); std::string how = vt::fmt("%s of %s", all?"mkdirs":"mkdir", want.c_str());
            if(got != exp) { vt::violation("make-result", "%s returned %d", how.c_str(), got); return; } if(exp && !isdir(want)) { vt::violation("make", "%s created nothing", how.c_str()); return; } if(!exp && !was && access(want.c_str(), F_OK) == 0 && !all) { vt::violation("make", "%s created something", how.c_str()); return; }
            if(!check(f, want, how)) return; vt::count(got?"folders made":"folders refused");
        }
        if(chdir(root.c_str())) return; if(vt::S().scratch.size()>3) { std::string cmd = "rm -rf '"+top+"'"; if(system(cmd.c_str())) return; }
    });
    vt::cases("list", vt::n(300, 4000), [&](Rng& r, long idx) {
        std::string top = root+vt::fmt("/ls%ld", idx); mkdir(top.c_str(), 0755); std::set<std::string> want; int n = r.irange(0, 12);
        for(int i = 0; i<n; i++) { std::string nm; int l = r.chance(.3)?(r.chance(.5)?r.irange(244, 255):r.irange(100, 250)):r.irange(1, 8); for(int k = 0; k<l; k++) nm += "abcdefgh.-_ 0"[r.irange(0, 12)]; if(nm == "." || nm == "..") continue; if(r.chance(.5)) mkdir((top+"/"+nm).c_str(), 0755); else vt::write_file(top+"/"+nm, "x"); want.insert(top+"/"+nm); }
        std::string deep; int dl = r.chance(.3)?r.irange(1, 3):0; (void)deep; (void)dl; std::vector<File> v; File f(top.c_str()); f.ls(&v); std::set<std::string> got; for(auto& x : v) { got.insert(x.absolute_path()); if(!check(x, x.absolute_path(), "listed")) return; }
        if(got != want || got.size() != v.size()) vt::violation("list", "%zu entries listed, %zu are there", v.size(), want.size()); std::vector<File> e; File g((top+"/none").c_str()); g.ls(&e); if(!e.empty()) vt::violation("list", "entries of a missing folder"); vt::eval(vt::hash_str(top)); vt::count("entries listed", (long long)v.size());
        std::string cmd = "rm -rf '"+top+"'"; if(system(cmd.c_str())) return; });
    return vt::finish();
}
