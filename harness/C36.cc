// C36 text and file helpers.
// vpt: san
#include "vpt.hh"
#include "parsing/ParseTool.hh"
#include "fileSearch/XmlFileSearch.hh"
#include "software/exceptions/TsParseException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include <cfloat>
#include <cstring>
#include <memory>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
typedef std::vector<std::string> V;
static std::string esc(const std::string& s) { std::ostringstream o; for (size_t i = 0; i < s.size(); ++i) { unsigned char ch = s[i]; if (ch < 32 || ch > 126) { char b[8]; sprintf(b, "\\x%02x", ch); o << b; } else o << ch; } return o.str(); }
static bool blank(char ch) { return strchr(" \t\n\v\f\r", ch) && ch; }
static std::string ends(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && blank(s[a])) ++a; while (b > a && blank(s[b - 1])) --b; return s.substr(a, b - a); }
static std::string without(const std::string& s, const char* rm) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (!rm || !strchr(rm, s[i])) r += s[i]; return r; }
static std::string word(Case& c, int n) { static const char f[] = "abz019.,;#/\"' \t=-_\r\v"; std::string s; for (int k = c.i(0, n); k > 0; --k) s += c.b(0.03) ? (char)c.i(128, 255) : f[c.i(0, (int)sizeof f - 2)]; return s; }
struct PT : ParseTool { using ParseTool::openFile; using ParseTool::closeFile; };
struct Dir { char n[32]; V made, dirs; Dir() { strcpy(n, "/tmp/vptfsXXXXXX"); if (!mkdtemp(n)) n[0] = 0; } std::string p(const std::string& f) const { return std::string(n) + "/" + f; } void file(const std::string& f, const std::string& t) { FILE* h = fopen(p(f).c_str(), "wb"); if (h) { fwrite(t.data(), 1, t.size(), h); fclose(h); made.push_back(f); } } ~Dir() { for (size_t i = 0; i < made.size(); ++i) unlink(p(made[i]).c_str()); for (size_t i = 0; i < dirs.size(); ++i) rmdir(p(dirs[i]).c_str()); if (n[0]) rmdir(n); } };
FACET(fields, 12000, 400000, "three fields or more, with blanks or removed characters") {
    std::string s = word(c, 40); const char* rm = c.pickOf<const char*>({ 0, "\"", "\"'", "", "#;" }); c.log() << "[" << esc(s) << "]\n"; const std::string tr = ParseTool::trim(s, rm), want = ends(without(s, rm)); c.check(tr == want, "trim", S() << "got [" << esc(tr) << "] expected [" << esc(want) << "]"); c.check(ParseTool::trim(tr, rm) == tr, "trim-again", "");
    const char sep = c.pickOf<char>({ ',', ';', '=', '/', ' ', '\t' }); V v(c.i(0, 2), "old"); ParseTool::splitLineByCharacter(v, s, sep); V w(1); for (size_t i = 0; i < s.size(); ++i) if (s[i] == sep) w.push_back(""); else w.back() += s[i]; for (size_t i = 0; i < w.size(); ++i) w[i] = ends(w[i]);
    c.check(v == w, "split", S() << v.size() << " fields, expected " << w.size()); if (v.size() > 2 && (tr != s)) c.nontrivial();
}
FACET(numbers, 12000, 400000, "a number in exponent form, or one followed by text") {
    const double v = c.b(0.05) ? 0. : c.sr(1e-320, 1.7e308); char b[80]; sprintf(b, c.pickOf<const char*>({ "%.17g", "%.17e", "%.20g", "  %.17g", "%+.17g" }), v); const std::string tail = c.pickOf<std::string>({ "", "", "abc", " ", ",1", " 2", "-" }); const std::string s = std::string(b) + tail; c.log() << "[" << s << "]\n"; double got = ParseTool::convertToDouble(s, "vpt", "here"); c.check(got == v, "value", S() << s << " read as " << got); if (!tail.empty() || strchr(b, 'e')) c.nontrivial();
    c.check(ParseTool::convertToDouble(tail == "abc" || tail == "-" ? tail : std::string(), "vpt", "here") == 0., "no-number", ""); const int i = c.i(-2147483647, 2147483647); sprintf(b, "%d", i); c.check(ParseTool::convertToDouble(b, "vpt", "here") == i, "integer", b); const int e = c.i(309, 5000); sprintf(b, "%s%de%d", c.b() ? "-" : "", c.i(1, 99), e); got = ParseTool::convertToDouble(b, "vpt", "here"); c.check(got == (b[0] == '-' ? -DBL_MAX : DBL_MAX), "overflow", S() << b << " read as " << got); c.check(ParseTool::convertToDouble("inf", "vpt", "here") == DBL_MAX && ParseTool::convertToDouble("-INFINITY", "vpt", "here") == -DBL_MAX, "infinity", "");
}
FACET(lines, 3000, 60000, "two or more kept lines with comments or removed characters") {
    Dir d; if (!d.n[0]) c.discard(); V raw; std::string t; const std::string nl = c.b(0.8) ? "\n" : "\r\n"; const char* rm = c.pickOf<const char*>({ 0, "\"", "\"'" }); const char* com = c.pickOf<const char*>({ 0, "#", "//", ";" }); const int n = c.i(0, 12); for (int k = 0; k < n; ++k) { std::string s = c.b(0.1) ? std::string() : word(c, 30); if (com && c.b(0.3)) s += (c.b() ? " " : "") + std::string(com) + word(c, 6); raw.push_back(s); t += s; if (k + 1 < n || c.b(0.7)) t += nl; else break; }
    size_t longest = 0; for (size_t i = 0, b = 0; i <= t.size(); ++i) if (i == t.size() || t[i] == '\n') { longest = std::max(longest, i - b); b = i + 1; } const bool std_ = c.b(0.5); const int width = std_ ? 50000 : std::max(2, (int)longest + c.i(-3, 4)); d.file("in.txt", t); c.log() << "text " << esc(t) << "\nwidth " << width << " remove " << (rm ? rm : "-") << " comment " << (com ? com : "-") << "\n";
    V want; for (size_t i = 0; i < raw.size(); ++i) { std::string s = ends(without(raw[i], rm)); if (com) { size_t p = s.find(com); if (p != std::string::npos) s.erase(p); } s = ends(s); if (!s.empty()) want.push_back(s); }
    V got(c.i(0, 2), "old"); bool threw = false; try { if (std_) ParseTool::parseLines(got, d.p("in.txt").c_str(), 50000, rm, com); else ParseTool::parseLines(got, d.p("in.txt").c_str(), width, rm, com); } catch (const TsParseException&) { threw = true; } const bool tooLong = (int)longest > width - 1; c.check(threw == tooLong, "too-long", S() << "longest line " << longest << " width " << width << " threw " << threw); if (!threw) { c.check(got == want, "lines", S() << "got " << got.size() << " lines, expected " << want.size()); if (want.size() > 1 && (rm || com)) c.nontrivial(); }
    bool t1 = false, t2 = false; try { ParseTool::parseLines(got, d.p("absent.txt").c_str(), 100, 0, 0); } catch (const TsParseException&) { t1 = true; } try { ParseTool::validateFile(0); } catch (const TsParseException&) { t2 = true; } c.check(t1 && t2, "absent", ""); ParseTool::validateFile(d.p("in.txt").c_str());
    std::ifstream f; PT::openFile(f, d.p("in.txt").c_str()); c.check(f.is_open(), "opened", ""); std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); c.check(all == t, "file-text", ""); PT::closeFile(f); c.check(!f.is_open(), "closed", ""); PT::closeFile(f);
}
FACET(search, 2500, 40000, "a directory with XML files among others") {
    Dir d; if (!d.n[0]) c.discard(); std::set<std::string> want; int others = 0; for (int k = c.i(0, 10); k > 0; --k) { std::string base; for (int n = c.i(0, 4); n > 0; --n) base += "abX1.-_+#( ~"[c.i(0, 11)]; std::string f = c.weighted({ 6, 1, 1 }) == 0 ? base + c.pickOf<std::string>({ ".xml", ".xml", ".XML", ".xml.bak", ".txt", "xml", "", ".", ".xm", ".xmlx" }) : c.pickOf<std::string>({ "xml", ".xml", ".a.xml", "xml.xml", "a.b.xml", "x" }); if (f.empty() || f == "." || f == "..") continue; if (c.b(0.15)) { if (mkdir(d.p(f).c_str(), 0700) == 0) d.dirs.push_back(f); ++others; continue; } struct stat st; if (stat(d.p(f).c_str(), &st) == 0) continue; d.file(f, "x"); const size_t p = f.rfind('.'); if (f[0] != '.' && p != std::string::npos && f.substr(p) == ".xml") want.insert(f); else ++others; c.log() << esc(f) << "\n"; }
    const int max = c.b(0.5) ? 100 : c.i(-1, 6); XmlFileSearch s; bool threw = false; try { if (max == 100 && c.b()) s.searchDirectory(d.n); else s.searchDirectory(d.n, max); } catch (const TsInitializationException&) { threw = true; } const bool bad = max <= 0 || want.empty() || (int)want.size() > max; V l = s.getFileList(); std::set<std::string> got(l.begin(), l.end()); std::string g; for (size_t i = 0; i < l.size(); ++i) g += esc(l[i]) + " ";
    c.check(threw == bad, "reported", S() << want.size() << " XML files, limit " << max << ", threw " << threw << ", list " << g); if (!bad) { c.check(got == want && l.size() == want.size(), "files", S() << "found " << g << ", " << want.size() << " are there"); if (want.size() > 1 && others) c.nontrivial(); }
    bool t = false; try { XmlFileSearch x; x.searchDirectory(d.p("absent").c_str(), 5); } catch (const TsInitializationException&) { t = true; } c.check(t, "absent", "");
}
