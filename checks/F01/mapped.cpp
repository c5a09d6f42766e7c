// MC: libs=common
// Stateless exploration of all call sequences on the mapped file reader, with
// the descriptor table and the address-space mappings observed after each step.
#include "mc.hpp"
#include <string>
#include <new>
#include <sys/stat.h>
#include <fstream>
#include <memory>
#include "diskpp/common/mapped_file.h"

static std::string dir;
static std::vector<std::string> fname;
static std::vector<std::string> fdata;    // "\1" = cannot be opened
static unsigned long baseline_fds;

static unsigned long fdset()
{
    unsigned long s = 0;
    for (int i = 0; i < 48; i++) if (fcntl(i, F_GETFD) != -1) s |= 1ul << i;
    return s;
}

static int mappings()
{
    std::ifstream f("/proc/self/maps"); std::string l; int n = 0;
    while (std::getline(f, l)) if (l.find(dir + "/f") != std::string::npos) n++;
    return n;
}

struct Model {
    bool open = false; std::string data; size_t pos = 0;
};

enum Op { O0, O1, O2, OEMPTY, OMISSING, ODIR, GET, CLOSE, RENEW, NOPS };
static const char* opn[] = {"open(two lines)", "open(unterminated)", "open(blank lines)", "open(empty)", "open(missing)", "open(directory)", "get_line", "close", "destroy+construct"};

static void run_seq(const std::vector<int>& ops, int poison)
{
    alignas(16) static unsigned char buf[sizeof(mapped_file) + 64];
    auto fresh = [&]() -> mapped_file* {
        if (poison == 0) memset(buf, 0, sizeof buf);
        else if (poison == 1) for (size_t i = 0; i + 4 <= sizeof buf; i += 4) *(int*)(buf + i) = 5;  // a descriptor of somebody else
        else memset(buf, 0x41, sizeof buf);
        return new (buf) mapped_file();
    };
    mapped_file* f = fresh();
    Model m;
    std::string hist;
    auto observe = [&](bool maps) {
        mc::check(f->is_open() == m.open, "is-open", hist);
        unsigned long now = fdset(), lost = baseline_fds & ~now, extra = now & ~baseline_fds;
        mc::check(lost == 0, "closed-foreign-descriptor", hist);
        mc::check(__builtin_popcountl(extra) == (m.open ? 1 : 0), "descriptor-leak", mc::str(hist, " extra=", __builtin_popcountl(extra)));
        if (maps) mc::check(mappings() == (m.open ? 1 : 0), "mapping-leak", hist);
        if (m.open) mc::check(f->mem() != nullptr && std::string(f->mem(), std::min<size_t>(4, m.data.size() - m.pos)) == m.data.substr(m.pos, 4), "mem", hist);
        // restore foreign descriptors so that exploration can go on
        if (lost) { for (int i = 0; i < 48; i++) if (lost >> i & 1) { int d = open("/dev/null", O_RDONLY); if (d != i) { dup2(d, i); close(d); } } }
    };
    observe(false);
    for (size_t k = 0; k < ops.size(); k++) {
        int op = ops[k];
        hist += std::string(opn[op]) + ";";
        switch (op) {
            case O0: case O1: case O2: case OEMPTY: case OMISSING: case ODIR: {
                f->open(fname[op]);
                bool ok = fdata[op] != "\1";
                m.open = ok; m.pos = 0; m.data = ok ? fdata[op] : "";
                break; }
            case GET: {
                size_t e = m.open ? m.data.find('\n', m.pos) : std::string::npos;
                if (m.open && e != std::string::npos) {
                    std::string got;
                    bool thrown = false;
                    try { got = f->get_line(); } catch (const std::exception&) { thrown = true; }
                    mc::check(!thrown, "get-line-threw", hist);
                    mc::check(got == m.data.substr(m.pos, e - m.pos), "get-line", mc::str(hist, " got '", got, "'"));
                    m.pos = e + 1;
                } else {
                    bool thrown = false;
                    try { f->get_line(); } catch (const std::exception&) { thrown = true; }
                    mc::check(thrown, "get-line-past-end", hist);
                }
                break; }
            case CLOSE: f->close(); m = Model(); break;
            case RENEW: f->~mapped_file(); m = Model(); f = fresh(); break;
        }
        mc::trans();
        observe(k + 1 == ops.size() && (ops.size() <= 3));
        mc::state(mc::str(m.open, m.data, m.pos, op));
    }
    f->~mapped_file(); m = Model();
    hist += "destroy";
    unsigned long now = fdset();
    mc::check(now == baseline_fds, "descriptors-after-destroy", hist);
    if (now != baseline_fds)
        for (int i = 0; i < 48; i++) {
            if ((now & ~baseline_fds) >> i & 1) close(i);
            if ((baseline_fds & ~now) >> i & 1) { int d = open("/dev/null", O_RDONLY); if (d != i) { dup2(d, i); close(d); } }
        }
    if (ops.size() <= 3) mc::check(mappings() == 0, "mappings-after-destroy", hist);
    mc::trace();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    const char* sd = getenv("MC_SCRATCH");
    dir = std::string(sd ? sd : ".");
    { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); if (dn > 2) close(dn); } // perror chatter
    auto put = [&](const std::string& n, const std::string& d) { std::ofstream o(dir + "/f" + n, std::ios::binary); o << d; };
    put("0", "alpha\nb\n"); put("1", "x\ny"); put("2", "\n\nz\n"); put("e", "");
    mkdir((dir + "/fd").c_str(), 0755);
    fname = {dir + "/f0", dir + "/f1", dir + "/f2", dir + "/fe", dir + "/fmissing", dir + "/fd"};
    fdata = {"alpha\nb\n", "x\ny", "\n\nz\n", "\1", "\1", "\1"};
    // canary descriptors 3..7
    for (int i = 0; i < 8; i++) { int d = open("/dev/null", O_RDONLY); if (d >= 8) { close(d); break; } }
    baseline_fds = fdset();
    int depth = mc::thorough() ? 6 : 5;
    for (int poison = 0; poison < 3; poison++)
        for (int len = 0; len <= depth; len++) {
            std::vector<int> ops(len, 0);
            while (true) {
                std::string id = mc::str("seq:", poison, ":");
                for (int o : ops) id += char('a' + o);
                // the deepest level is explored for one poison pattern in the quick tier
                mc::scenario(id, [&]{ run_seq(ops, poison); });
                int i = len - 1;
                while (i >= 0 && ++ops[i] == NOPS) ops[i--] = 0;
                if (i < 0) break;
            }
            if (len + 1 == depth + 1) break;
        }
    // every file content over {a, newline} up to the bound, and page-size files
    int maxlen = mc::thorough() ? 11 : 8;
    std::vector<std::string> contents;
    for (int len = 1; len <= maxlen; len++)
        for (int b = 0; b < (1 << len); b++) {
            std::string s; for (int i = 0; i < len; i++) s += (b >> i & 1) ? '\n' : char('a' + i);
            contents.push_back(s);
        }
    for (int pad : {4095, 4096, 4097, 8192}) { std::string s(pad, 'q'); s[10] = '\n'; s.back() = '\n'; contents.push_back(s); s.back() = 'q'; contents.push_back(s); }
    for (size_t ci = 0; ci < contents.size(); ci++)
        mc::scenario(mc::str("content:", ci), [&]{
            put("c", contents[ci]);
            mapped_file f(dir + "/fc");
            mc::check(f.is_open(), "open-existing");
            std::vector<std::string> want, got;
            size_t p = 0, e;
            while ((e = contents[ci].find('\n', p)) != std::string::npos) { want.push_back(contents[ci].substr(p, e - p)); p = e + 1; }
            for (size_t i = 0; i < want.size(); i++) got.push_back(f.get_line());
            mc::check(got == want, "lines");
            bool thrown = false;
            try { f.get_line(); } catch (const std::exception&) { thrown = true; }
            mc::check(thrown, "past-end");
        });
    return mc::finish();
}
