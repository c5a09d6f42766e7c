// Broken mesh files: every prefix, every integer replaced, missing and empty files, for one format given by a loader and a comparison.
#pragma once
#include "meshfiles.hpp"
#include <sys/resource.h>
#include <cstring>
namespace mm {
struct brokenfile { std::string fmt, ext, text; bool mapped; bool zero_based; }; // zero_based: replacing a number by 0 keeps it in range and is left out
// attempt: load the file into M in a child first; 0 failed cleanly, 1 success, 2 a mesh referring to something that does not exist, <0 crash or endless
template<typename M, typename L> int attempt(const std::string& fn, L load)
{
    int sig = 0; int r = mc::isolated([&]() -> int { M m; bool ok = false; try { ok = load(fn.c_str(), m); } catch (const std::exception&) { ok = false; } if (!ok) return 0; auto st = m.backend_storage(); size_t n = m.points_size();
        if (st->boundary_info.size() != m.faces_size()) return 2; for (auto& cl : m) { for (auto v : ids(cl)) if (v >= n) return 2; for (auto f : faces(m, cl)) for (auto v : ids(f)) if (v >= n) return 2; } for (auto it = m.faces_begin(); it != m.faces_end(); ++it) for (auto v : ids(*it)) if (v >= n) return 2;
        if constexpr (M::dimension == 3) for (auto& e : st->edges) for (auto v : ids(e)) if (v >= n) return 2; return 1; }, 5, &sig); mc::trans(); return r; }
template<typename M, typename L, typename C> void broken(const brokenfile& b, L load, C compare, bool th)
{
    auto fn = scratch(b.ext.c_str()); auto report = [&](int r, const std::string& w) { mc::trace(); mc::check(r != -1 && r != 98, "crash", w); mc::check(r != -2, "does-not-terminate", w); mc::check(r != 2, "refers-to-nothing", w); return r == 1; };
    auto again = [&](const std::string& w, bool marks) { M m; bool ok = false; { quiet q; ok = load(fn.c_str(), m); } with_ids = marks; if (mc::check(ok, "not-reproducible", w); ok) compare(w, m, marks); with_ids = true; };
    unlink(fn.c_str()); report(attempt<M>(fn, load) == 1 ? 2 : attempt<M>(fn, load), b.fmt + " missing"); mc::check(attempt<M>(fn, load) == 0, "missing-accepted", b.fmt); mkdir(fn.c_str(), 0700); int rd = attempt<M>(fn, load); report(rd, b.fmt + " directory"); mc::check(rd != 1, "directory-accepted", b.fmt); rmdir(fn.c_str());
    put(fn, b.text); int r0 = attempt<M>(fn, load); report(r0, b.fmt + " complete"); mc::check(r0 == 1, "complete-rejected", b.fmt); if (r0 == 1) again(b.fmt + " complete", true);
    size_t last = b.text.find_last_not_of(" \n\r\t"), tok = b.text.find_last_of(" \n\r\t", last) + 1; // last token: [tok, last]
    // every prefix; for mapped files also filled up with blanks to whole pages, so that nothing follows the data
    for (int pad = 0; pad < (b.mapped ? 2 : 1); pad++) for (size_t n = 0; n <= last + 1; n++) {
        std::string t = b.text.substr(0, n), w = mc::str(b.fmt, " cut at ", n, pad ? " filling a page" : ""); if (pad) { if (n == 0) continue; size_t full = (n + 4095) / 4096 * 4096; t = std::string(full - n, ' ') + t; } mc::state(w); put(fn, t); int r = attempt<M>(fn, load); bool ok = report(r, w);
        if (ok) { if (n == last + 1) again(w, true); else if (n <= tok) mc::fail("truncated-accepted", w); } else if (n == last + 1 && !pad) mc::fail("complete-rejected", w); }
    // every integer replaced
    std::vector<std::pair<size_t, size_t>> toks; for (size_t i = 0; i < b.text.size();) { if (isspace(b.text[i])) { i++; continue; } size_t j = i; while (j < b.text.size() && !isspace(b.text[j])) j++; bool num = true; for (size_t k = i; k < j; k++) num &= isdigit(b.text[k]) != 0; if (num) toks.push_back({i, j - i}); i = j; }
    for (auto [at, len] : toks) for (const char* v : {"0", "-1", "31", "999", "100000", "2147483647", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "x", "1.5"}) { if (b.zero_based && !strcmp(v, "0")) continue;
        std::string w = mc::str(b.fmt, " ", b.text.substr(at, len), " at ", at, " replaced by ", v); std::string t = b.text; t.replace(at, len, v); mc::state(w); put(fn, t); bool ok = report(attempt<M>(fn, load), w); bool far = !strcmp(v, "999") || !strcmp(v, "100000"); if (ok && far) again(w, false); }
}
} // namespace mm
