// C35 XML documents.
// vpt: san
#include "vpt.hh"
#include "parsing/tinyxml/tinyxml.hh"
#include "parsing/tinyxml/tinyxmlparser.hh"
#include <memory>
#include <unistd.h>
// ---- the model: element name, attributes, children; kinds
enum Kind { ELEM, TEXT, CDATA, COMMENT, UNKNOWN };
struct N { Kind k; std::string v; std::vector<std::pair<std::string, std::string> > at; std::vector<N> ch; };
static std::string name(Case& c) { static const char* f = "abcXYZ_"; static const char* r = "abcXYZ_-.:019"; std::string s(1, f[c.i(0, 6)]); for (int n = c.i(0, 4); n > 0; --n) s += r[c.i(0, 12)]; return s; }
static std::string content(Case& c, int n, bool plain) {
    std::string s; for (int k = c.i(0, n); k > 0; --k) switch (c.weighted({ 6, 3, 2, 2, 1, 1 })) { case 0: s += (char)('a' + c.i(0, 25)); break; case 1: s += ' '; break; case 2: s += "&<>\"'"[c.i(0, 4)]; break; case 3: s += c.pickOf<std::string>({ "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0" }); break; case 4: s += plain ? '~' : (char)c.i(1, 31); break; default: s += c.pickOf<std::string>({ "&amp;", "&lt;", "&#65;", "]]", "--", "/>", "<a>", "%s", "\\", "&#", "&;", "&x" }); }
    size_t i; while ((i = s.find("&#x")) != std::string::npos) s.erase(i, 1); return s;
}
static N tree(Case& c, int depth, bool plain, bool textOnly) {
    N n; n.k = ELEM; n.v = name(c); for (int k = c.i(0, 3); k > 0; --k) { std::string a = name(c); bool dup = false; for (size_t i = 0; i < n.at.size(); ++i) dup |= n.at[i].first == a; if (!dup) n.at.push_back(std::make_pair(a, content(c, 8, plain))); }
    for (int k = depth ? c.i(0, 4) : c.i(0, 1); k > 0; --k) { N e; switch (depth ? c.weighted({ 5, 3, textOnly ? 0 : 1, textOnly ? 0 : 1, textOnly ? 0 : 1 }) : 1) { case 0: n.ch.push_back(tree(c, depth - 1, plain, textOnly)); continue; case 1: e.k = TEXT; e.v = content(c, 12, plain); break;
        case 2: e.k = CDATA; e.v = content(c, 12, true) + "x"; { size_t i; while ((i = e.v.find("]]")) != std::string::npos) e.v.erase(i, 1); if (e.v[e.v.size() - 1] == ']') e.v += "y"; } break; case 3: e.k = COMMENT; e.v = content(c, 10, true); { size_t i; while ((i = e.v.find("-")) != std::string::npos) e.v.erase(i, 1); } break; default: e.k = UNKNOWN; e.v = "!" + name(c); } if (!(e.k == TEXT && !n.ch.empty() && n.ch.back().k == TEXT)) n.ch.push_back(e); }
    return n;
}
static TiXmlNode* build(const N& n) { switch (n.k) { case ELEM: { TiXmlElement* e = new TiXmlElement(n.v); for (size_t i = 0; i < n.at.size(); ++i) e->SetAttribute(n.at[i].first, n.at[i].second); for (size_t i = 0; i < n.ch.size(); ++i) e->LinkEndChild(build(n.ch[i])); return e; } case TEXT: return new TiXmlText(n.v); case CDATA: { TiXmlText* t = new TiXmlText(n.v); t->SetCDATA(true); return t; } case COMMENT: return new TiXmlComment(n.v.c_str()); default: { TiXmlUnknown* u = new TiXmlUnknown; u->SetValue(n.v); return u; } } }
static N read(const TiXmlNode* p) { N n; n.v = p->ValueStr(); if (p->ToElement()) { n.k = ELEM; for (const TiXmlAttribute* a = p->ToElement()->FirstAttribute(); a; a = a->Next()) n.at.push_back(std::make_pair(std::string(a->Name()), a->ValueStr())); for (const TiXmlNode* q = p->FirstChild(); q; q = q->NextSibling()) n.ch.push_back(read(q)); } else if (p->ToText()) n.k = p->ToText()->CDATA() ? CDATA : TEXT; else if (p->ToComment()) n.k = COMMENT; else n.k = UNKNOWN; return n; }
// what the text form keeps: runs of spaces in text count once and do not count at its ends, blank text is not there
static std::string squeeze(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] != ' ') { if (i && s[i - 1] == ' ' && !r.empty()) r += ' '; r += s[i]; } return r; }
static N norm(const N& n) { N r = n; if (n.k == TEXT) r.v = squeeze(n.v); r.ch.clear(); for (size_t i = 0; i < n.ch.size(); ++i) { N e = norm(n.ch[i]); if (e.k == TEXT && e.v.find_first_not_of(" \t\n\v\f\r") == std::string::npos) continue; r.ch.push_back(e); } return r; }
static std::string esc(const std::string& s) { std::ostringstream o; for (size_t i = 0; i < s.size(); ++i) { unsigned char ch = s[i]; if (ch < 32 || ch > 126) { char b[8]; sprintf(b, "\\x%02x", ch); o << b; } else o << ch; } return o.str(); }
static std::string show(const N& n) { std::string s = S() << n.k << "{" << esc(n.v); for (size_t i = 0; i < n.at.size(); ++i) s += " " + n.at[i].first + "=[" + esc(n.at[i].second) + "]"; for (size_t i = 0; i < n.ch.size(); ++i) s += " " + show(n.ch[i]); return s + "}"; }
static int count(const N& n) { int k = 1; for (size_t i = 0; i < n.ch.size(); ++i) k += count(n.ch[i]); return k; }
static std::string print(const TiXmlNode& d, bool stream) { TiXmlPrinter p; if (stream) p.SetStreamPrinting(); d.Accept(&p); return p.Str(); }
static std::string viaFile(Case& c, const TiXmlDocument& d) { FILE* f = tmpfile(); if (!f) c.discard(); d.Print(f, 0); std::string s; rewind(f); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static void finish(Case& c, TiXmlDocument& d, const std::string& t) { c.check(!d.Error(), "error", S() << "error " << d.ErrorId() << " " << d.ErrorDesc() << " at " << d.ErrorRow() << "," << d.ErrorCol() << " in " << esc(t)); }
FACET(roundtrip, 12000, 300000, "five or more nodes with an escaped or multi-byte character") {
    const bool plain = c.b(0.5), decl = c.b(), stream = c.b(0.4); const int how = c.i(0, 3); N m = tree(c, c.i(0, 4), plain, false); TiXmlDocument d; if (decl) d.LinkEndChild(new TiXmlDeclaration("1.0", c.pickOf<const char*>({ "UTF-8", "", "utf8" }), "")); const bool lead = c.b(0.2); if (lead) d.LinkEndChild(new TiXmlComment("top")); d.LinkEndChild(build(m)); if (c.b(0.2)) d.LinkEndChild(new TiXmlComment("end"));
    c.log() << "tree " << show(m) << "\n"; c.check(show(read(d.RootElement())) == show(m), "built", show(read(d.RootElement())));
    std::string t; switch (how) { case 0: t = print(d, stream); break; case 1: t = viaFile(c, d); break; case 2: { std::ostringstream o; o << d; t = o.str(); break; } default: { TiXmlDocument e(d); t = print(e, stream); } } c.log() << "text " << esc(t) << "\n";
    TiXmlDocument e; if (c.b(0.3)) { std::istringstream in(t); in >> e; } else e.Parse(t.c_str()); finish(c, e, t); c.check(e.RootElement() != 0, "root", ""); N back = read(e.RootElement()); const N want = norm(m);
    N got = back; c.check(show(norm(got)) == show(want), "content", S() << "got " << show(back) << " expected " << show(want)); if (decl) c.check(e.FirstChild()->ToDeclaration() && std::string(e.FirstChild()->ToDeclaration()->Version()) == "1.0" && std::string(e.FirstChild()->ToDeclaration()->Encoding()) == d.FirstChild()->ToDeclaration()->Encoding(), "declaration", "");
    const std::string t2 = print(e, stream); TiXmlDocument f; f.Parse(t2.c_str()); finish(c, f, t2); const std::string t3 = print(f, stream); c.check(t3 == t2, "stable", S() << esc(t2) << " then " << esc(t3)); TiXmlDocument g(f); c.check(print(g, stream) == t2, "copy", ""); std::unique_ptr<TiXmlNode> cl(f.RootElement()->Clone()); c.check(show(read(cl.get())) == show(read(f.RootElement())), "clone", "");
    bool special = false; for (size_t i = 0; i < t.size(); ++i) special |= t[i] == '&' || (unsigned char)t[i] > 127; if (count(m) > 4 && special) c.nontrivial();
}
// the same from and to a file, with other line ends; positions of the elements
FACET(files, 1500, 30000, "a document with nested elements") {
    N m = tree(c, c.i(1, 3), true, true); TiXmlDocument d; d.LinkEndChild(build(m)); c.log() << show(m) << "\n"; char nm[] = "/tmp/vptxmlXXXXXX"; int fd = mkstemp(nm); if (fd < 0) c.discard(); struct Rm { const char* n; ~Rm() { unlink(n); } } rm = { nm }; close(fd);
    c.check(d.SaveFile(nm), "save", ""); TiXmlDocument e(nm); c.check(e.LoadFile(), "load", e.ErrorDesc()); c.check(show(norm(read(e.RootElement()))) == show(norm(m)), "content", "");
    // positions against the text
    std::string t = viaFile(c, d); int row = 1, col = 1; size_t p = 0; std::vector<const TiXmlElement*> order; std::vector<const TiXmlElement*> st(1, e.RootElement()); while (!st.empty()) { const TiXmlElement* x = st.back(); st.pop_back(); order.push_back(x); std::vector<const TiXmlElement*> k; for (const TiXmlElement* q = x->FirstChildElement(); q; q = q->NextSiblingElement()) k.push_back(q); st.insert(st.end(), k.rbegin(), k.rend()); }
    size_t k = 0; for (; p < t.size(); ++p) { if (t[p] == '<' && t[p + 1] != '/') { c.check(k < order.size(), "extra", ""); c.check(order[k]->Row() == row && order[k]->Column() == col, "position", S() << order[k]->ValueStr() << " at " << order[k]->Row() << "," << order[k]->Column() << " is at " << row << "," << col); ++k; } if (t[p] == '\n') { ++row; col = 1; } else if (((unsigned char)t[p] & 0xc0) != 0x80) ++col; } c.check(k == order.size(), "missing", "");
    std::string u; const bool crlf = c.b(); for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n') u += crlf ? "\r\n" : "\r"; else u += t[i]; } FILE* f = fopen(nm, "wb"); if (!f) c.discard(); fwrite(u.data(), 1, u.size(), f); fclose(f); TiXmlDocument g; c.check(g.LoadFile(nm), "load-line-ends", ""); c.check(show(read(g.RootElement())) == show(read(e.RootElement())), "line-ends", ""); TiXmlDocument h; c.check(!h.LoadFile("/tmp/vpt-no-such-file.xml") && h.Error(), "absent", ""); if (count(m) > 3) c.nontrivial();
}
// ---- a history of edits through the node interface against the model
FACET(edits, 8000, 200000, "ten or more edits of an element with children") {
    TiXmlDocument d; TiXmlElement* r = new TiXmlElement("root"); d.LinkEndChild(r); N m; m.k = ELEM; m.v = "root"; int edits = 0;
    for (int s = 0, n = c.i(1, 30); s < n; ++s) { const int k = (int)m.ch.size(); std::vector<TiXmlNode*> p; for (TiXmlNode* q = r->FirstChild(); q; q = q->NextSibling()) p.push_back(q); c.check((int)p.size() == k, "children", ""); const int op = c.i(0, 11); c.log() << "op " << op << "\n"; N e = c.b() ? tree(c, 1, true, true) : N(); if (e.v.empty()) { e.k = c.b() ? TEXT : COMMENT; e.v = content(c, 6, true); }
        std::unique_ptr<TiXmlNode> x(build(e)); const int at = k ? c.i(0, k - 1) : 0; TiXmlNode* q = 0;
        switch (op) { case 0: q = r->InsertEndChild(*x); m.ch.push_back(e); break; case 1: q = r->LinkEndChild(x.release()); m.ch.push_back(e); break; case 2: if (!k) break; q = r->InsertBeforeChild(p[at], *x); m.ch.insert(m.ch.begin() + at, e); break; case 3: if (!k) break; q = r->InsertAfterChild(p[at], *x); m.ch.insert(m.ch.begin() + at + 1, e); break; case 4: if (!k) break; q = r->ReplaceChild(p[at], *x); m.ch[at] = e; break;
            case 5: if (!k) break; c.check(r->RemoveChild(p[at]), "remove", ""); m.ch.erase(m.ch.begin() + at); break; case 6: if (c.b(0.2)) { r->Clear(); m.ch.clear(); } break;
            case 7: { std::string a = name(c), v = content(c, 6, true); c.b() ? r->SetAttribute(a, v) : r->SetAttribute(a.c_str(), v.c_str()); bool f = false; for (size_t i = 0; i < m.at.size(); ++i) if (m.at[i].first == a) { m.at[i].second = v; f = true; } if (!f) m.at.push_back(std::make_pair(a, v)); break; }
            case 8: { if (m.at.empty()) { r->RemoveAttribute("none"); break; } const int i = c.i(0, (int)m.at.size() - 1); r->RemoveAttribute(m.at[i].first); m.at.erase(m.at.begin() + i); break; }
            case 9: { int v = c.i(-2000000000, 2000000000), w = 0; double dv = 0; r->SetAttribute("int", v); c.check(r->QueryIntAttribute("int", &w) == TIXML_SUCCESS && w == v, "int", S() << v << " " << w); c.check(r->QueryDoubleAttribute("int", &dv) == TIXML_SUCCESS && dv == v, "int-as-double", ""); int z = 7; c.check(r->QueryIntAttribute("nothing", &z) == TIXML_NO_ATTRIBUTE && z == 7, "no-attribute", ""); c.check(*r->Attribute(std::string("int"), &w) == (std::string(S() << v)) && w == v, "attribute", ""); r->RemoveAttribute("int"); break; }
            case 10: { double v = c.sr(1e-9, 1e9), w = 0; r->SetDoubleAttribute("dbl", v); c.check(r->QueryDoubleAttribute("dbl", &w) == TIXML_SUCCESS, "double", ""); c.checkNear(w, v, 6e-6, 0, "double-value", ""); r->SetAttribute("dbl", "text"); int z; c.check(r->QueryDoubleAttribute("dbl", &w) == TIXML_WRONG_TYPE && r->QueryIntAttribute("dbl", &z) == TIXML_WRONG_TYPE, "wrong-type", ""); r->RemoveAttribute("dbl"); break; }
            default: { const std::string want = k && m.ch[at].k == ELEM ? m.ch[at].v : "root"; size_t first = m.ch.size(); for (size_t i = m.ch.size(); i-- > 0;) if (m.ch[i].k == ELEM && m.ch[i].v == want) first = i; TiXmlElement* f = r->FirstChildElement(want); c.check(first == m.ch.size() ? f == 0 : f == p[first], "first-element", want); if (f) { size_t nx = first + 1; while (nx < m.ch.size() && !(m.ch[nx].k == ELEM && m.ch[nx].v == want)) ++nx; c.check(f->NextSiblingElement(want) == (nx < m.ch.size() ? p[nx] : 0), "next-element", ""); } TiXmlHandle h(&d); int el = 0; for (int i = 0; i < k; ++i) if (m.ch[i].k == ELEM) { c.check(h.FirstChild("root").ChildElement(el).ToElement() == p[i], "handle-element", ""); ++el; } for (int i = 0; i < k; ++i) c.check(h.FirstChildElement().Child(i).ToNode() == p[i], "handle-child", ""); } }
        if (q) { c.check(q->Parent() == r && q->GetDocument() == &d, "parent", ""); ++edits; } N now = read(r); c.check(show(now) == show(m), "model", S() << "got " << show(now) << " expected " << show(m)); TiXmlNode* last = 0; for (TiXmlNode* y = r->FirstChild(); y; y = y->NextSibling()) { c.check(y->PreviousSibling() == last && y->Parent() == r, "links", ""); last = y; } c.check(r->LastChild() == last && r->NoChildren() == !last, "last", "");
    } if (edits > 9) c.nontrivial();
}
static bool utf8(const std::string& s) { for (size_t i = 0; i < s.size();) { unsigned char b = s[i]; int n = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0; if (!n || i + n > s.size()) return false; for (int k = 1; k < n; ++k) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false; i += n; } return true; }
// ---- any bytes
FACET(bytes, 25000, 1500000, "a mutated document that still parsed, or reported an error") {
    std::string t; if (c.b(0.75)) { N m = tree(c, c.i(0, 3), false, false); TiXmlDocument d; if (c.b()) d.LinkEndChild(new TiXmlDeclaration("1.0", c.pickOf<const char*>({ "UTF-8", "", "ISO-8859-1" }), c.b() ? "yes" : "")); d.LinkEndChild(build(m)); t = print(d, c.b()); }
    static const char* bits[] = { "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?xml", "?>", "&", "&#", "&#x", ";", "&amp;", "\"", "'", "=", " ", "\n", "\r", "\t", "\xef", "\xef\xbb\xbf", "\xef\xbf\xbe", "\xc3", "\xe2\x82", "\xf0", "\xff", "\x80", "<a", "<a>", "</a>", "<a b=\"", "<!", "<?", "0", "9", "f", "encoding=\"UTF-8\"", "version=", "standalone='", "xml", "[", "]", "-", "a", "_", ":", "&#x41;", "&#0;", "&#x110000;", "&lt" };
    const int edits = c.b(0.1) ? 0 : c.i(1, 8); for (int k = 0; k < edits; ++k) { const size_t at = t.empty() ? 0 : (size_t)c.raw(t.size() + 1); switch (c.i(0, 5)) { case 0: t.insert(at, bits[c.i(0, sizeof bits / sizeof *bits - 1)]); break; case 1: t.insert(at, bits[c.i(0, sizeof bits / sizeof *bits - 1)]); t += bits[c.i(0, sizeof bits / sizeof *bits - 1)]; break; case 2: if (at < t.size()) t.erase(at, (size_t)c.i(1, 4)); break; case 3: if (at < t.size()) t[at] = (char)c.i(1, 255); break; case 4: if (at < t.size()) t.erase(at); break; default: if (at < t.size()) t.insert(c.raw(t.size()), t.substr(at, (size_t)c.i(1, 20))); } }
    c.log() << "bytes " << esc(t) << "\n"; const bool keep = c.b(0.2); std::unique_ptr<char[]> buf(new char[t.size() + 1]); memcpy(buf.get(), t.c_str(), t.size() + 1); const TiXmlEncoding enc = c.pickOf<TiXmlEncoding>({ TIXML_ENCODING_UNKNOWN, TIXML_ENCODING_UTF8, TIXML_ENCODING_LEGACY });
    if (keep) TiXmlBase::SetCondenseWhiteSpace(false); struct Back { ~Back() { TiXmlBase::SetCondenseWhiteSpace(true); } } back; TiXmlDocument d; d.SetTabSize(c.i(0, 8)); d.Parse(buf.get(), 0, enc); c.nontrivial(); c.label(d.Error() ? "error" : "parsed");
    if (d.Error()) { c.check(d.ErrorId() > 0 && std::string(d.ErrorDesc()).size() > 0, "described", ""); c.check(d.ErrorRow() >= 0 && d.ErrorCol() >= 0, "error-position", S() << d.ErrorRow() << "," << d.ErrorCol()); }
    if (c.b(0.3)) { std::istringstream in(t); TiXmlDocument e; in >> e; }
    const std::string p = print(d, false); viaFile(c, d); TiXmlDocument k(d); if (p.find("&#x00;") == std::string::npos && p.find((char)0) == std::string::npos) c.check(print(k, false) == p, "copy", "");
    bool plainDecl = true; for (TiXmlNode* q = d.FirstChild(); q; q = q->NextSibling()) if (q->ToDeclaration()) { TiXmlDeclaration* dd = q->ToDeclaration(); plainDecl = plainDecl && (std::string(dd->Version()) + dd->Encoding() + dd->Standalone()).find_first_of("&<>\"'") == std::string::npos; }
    if (!d.Error() && utf8(t) && utf8(p) && plainDecl && !keep && enc != TIXML_ENCODING_LEGACY && p.find("&#x") == std::string::npos && t.find("&#") == std::string::npos) { TiXmlDocument e; e.Parse(p.c_str(), 0, enc); if (!e.Error()) { const std::string p2 = print(e, false); TiXmlDocument f; f.Parse(p2.c_str(), 0, enc); c.check(print(f, false) == p2, "stable", S() << esc(p2) << " then " << esc(print(f, false))); } }
}
// ---- references are replaced by the characters they stand for, in text and in attributes
FACET(references, 4000, 100000, "a reference beyond ASCII") {
    std::string in, want; bool big = false; for (int k = c.i(1, 6); k > 0; --k) switch (c.i(0, 3)) { case 0: { static const char* e[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;" }; const int i = c.i(0, 4); in += e[i]; want += "&<>\"'"[i]; break; } case 1: { std::string s(1, (char)c.i('a', 'z')); in += s; want += s; break; }
        default: { unsigned u; switch (c.i(0, 3)) { case 0: u = c.i(33, 126); break; case 1: u = c.i(0xa1, 0x7ff); break; case 2: u = c.pickOf<int>({ 0x800, 0xffff, 0xd7ff, 0x20ac, 0x1000 }); break; default: u = c.i(0x10000, 0x10ffff); } big |= u > 127; char b[32]; sprintf(b, c.pickOf<const char*>({ "&#%u;", "&#x%x;", "&#x%X;", "&#x%06X;" }), u); in += b; if (u < 0x80) want += (char)u; else if (u < 0x800) { want += (char)(0xc0 | u >> 6); want += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { want += (char)(0xe0 | u >> 12); want += (char)(0x80 | (u >> 6 & 63)); want += (char)(0x80 | (u & 63)); } else { want += (char)(0xf0 | u >> 18); want += (char)(0x80 | (u >> 12 & 63)); want += (char)(0x80 | (u >> 6 & 63)); want += (char)(0x80 | (u & 63)); } } }
    c.log() << in << "\n"; const std::string t = "<a b=\"" + in + "\" c='" + in + "'>" + in + "</a>"; TiXmlDocument d; d.Parse(t.c_str(), 0, TIXML_ENCODING_UTF8); finish(c, d, t); const TiXmlElement* r = d.RootElement(); c.check(r && r->Attribute("b") && r->Attribute("c") && r->GetText(), "there", ""); c.check(want == r->Attribute("b") && want == r->Attribute("c"), "attribute", S() << esc(in) << " read as " << esc(r->Attribute("b")) << " expected " << esc(want)); c.check(want == r->GetText(), "text", S() << esc(in) << " read as " << esc(r->GetText()) << " expected " << esc(want)); if (big) c.nontrivial();
}
// ---- where elements and attributes are, counted over tabs, line ends of every kind, multi-byte and zero-width characters
FACET(positions, 4000, 100000, "a document with a tab and a multi-byte character before an element") {
    const int tab = c.i(1, 9); std::string t; int row = 1, col = 1; bool tabbed = false, multi = false; struct P { int r, c; }; std::vector<P> want; std::vector<std::string> open; bool nl = false, cr = false;
    auto put = [&](const std::string& s) { for (size_t i = 0; i < s.size(); ++i) { const unsigned char b = s[i]; t += s[i]; if (b == '\n') { if (!cr) { ++row; nl = true; } else nl = false; cr = false; col = 1; continue; } if (b == '\r') { if (!nl) { ++row; cr = true; } else cr = false; nl = false; col = 1; continue; } nl = cr = false; if (b == '\t') { col = ((col - 1) / tab + 1) * tab + 1; tabbed = true; } else if ((b & 0xc0) != 0x80) ++col; else multi = true; } };
    auto wide = [&]() { static const char* z[] = { "\xef\xbb\xbf", "\xef\xbf\xbe", "\xef\xbf\xbf" }; put("w"); const char* k = z[c.i(0, 2)]; t += k; nl = cr = false; put("w"); };
    auto gap = [&](int lo) { for (int k = c.i(lo, 3); k > 0; --k) put(c.pickOf<std::string>({ " ", "\t", "\n", "\r\n", "\r", "\n\r", "  " })); };
    auto text = [&]() { switch (c.i(0, 6)) { case 0: put("x\xc3\xa9y"); break; case 1: put("\xe2\x82\xac"); break; case 2: put("p\t\xf0\x9f\x98\x80"); break; case 3: wide(); break; case 4: put("<!-- a\tb\n c -->"); break; case 5: put("<![CDATA[\t\r\n<q>]]>"); break; default: put("\xef\xac\x80q"); } };
    auto elem = [&](bool root) { want.push_back(P{ row, col }); put(std::string("<") + (root ? "r" : c.pickOf<std::string>({ "e", "ab", "n\xc3\xa9" }))); size_t at = t.rfind('<') + 1; std::string nm = t.substr(at); for (int k = c.i(0, 2); k > 0; --k) { put(" "); gap(0); want.push_back(P{ row, col }); put(std::string(S() << "k" << k)); put("="); put(c.b() ? "\"v\t&amp;\xc3\xa9\"" : "'1\n2'"); } gap(0); if (!root && c.b(0.4)) put("/>"); else { put(">"); open.push_back(nm); } };
    gap(0); elem(true); for (int k = c.i(1, 8); k > 0; --k) { gap(0); if (c.b(0.4)) text(); gap(0); if (open.size() > 1 && c.b(0.4)) { put("</" + open.back() + ">"); open.pop_back(); } else elem(false); } while (!open.empty()) { gap(0); put("</" + open.back() + ">"); open.pop_back(); }
    c.log() << "tab " << tab << " text " << esc(t) << "\n"; TiXmlDocument d; d.SetTabSize(tab); c.check(d.TabSize() == tab, "tab-size", ""); const bool copied = c.b(0.2); if (copied) { TiXmlDocument k(d); d = k; c.check(d.TabSize() == tab, "tab-size-copied", ""); } d.Parse(t.c_str(), 0, TIXML_ENCODING_UTF8); finish(c, d, t);
    std::vector<P> got; std::vector<const TiXmlElement*> st(1, d.RootElement()); while (!st.empty()) { const TiXmlElement* x = st.back(); st.pop_back(); got.push_back(P{ x->Row(), x->Column() }); for (const TiXmlAttribute* a = x->FirstAttribute(); a; a = a->Next()) got.push_back(P{ a->Row(), a->Column() }); std::vector<const TiXmlElement*> k; for (const TiXmlElement* q = x->FirstChildElement(); q; q = q->NextSiblingElement()) k.push_back(q); st.insert(st.end(), k.rbegin(), k.rend()); }
    c.check(got.size() == want.size(), "count", S() << got.size() << " " << want.size()); for (size_t i = 0; i < got.size(); ++i) c.check(got[i].r == want[i].r && got[i].c == want[i].c, "position", S() << "item " << i << " at " << got[i].r << "," << got[i].c << " is at " << want[i].r << "," << want[i].c); if (tabbed && multi && want.size() > 1) c.nontrivial();
}
// ---- assignment leaves an equal node, whatever was there
FACET(assignment, 4000, 100000, "assigned an element that has children or attributes") {
    N a = tree(c, c.i(0, 2), true, true), b = tree(c, c.i(0, 2), true, true); std::unique_ptr<TiXmlNode> pa(build(a)), pb(build(b)); c.log() << show(a) << "\n" << show(b) << "\n"; *pb->ToElement() = *pa->ToElement(); c.check(show(read(pb.get())) == show(a), "element", S() << show(read(pb.get()))); c.check(show(read(pa.get())) == show(a), "source", "");
    const std::string v = content(c, 4, true), e = content(c, 4, true), s = c.pickOf<std::string>({ "", "yes", "no" }); TiXmlDeclaration x(v, e, s), y("9", "q", "r"), z(x); y = x; std::unique_ptr<TiXmlNode> w(x.Clone()); const TiXmlDeclaration* all[] = { &x, &y, &z, w->ToDeclaration() }; for (int k = 0; k < 4; ++k) c.check(all[k] && v == all[k]->Version() && e == all[k]->Encoding() && s == all[k]->Standalone(), "declaration", S() << k);
    TiXmlText t1(v), t2("old"); t1.SetCDATA(c.b()); t2 = t1; TiXmlText t3(t1); c.check(t2.ValueStr() == v && t2.CDATA() == t1.CDATA() && t3.ValueStr() == v && t3.CDATA() == t1.CDATA(), "text", ""); TiXmlComment c1(v.c_str()), c2("old"); c2 = c1; TiXmlComment c3(c1); c.check(c2.ValueStr() == v && c3.ValueStr() == v, "comment", ""); TiXmlUnknown u1, u2; u1.SetValue(v); u2 = u1; TiXmlUnknown u3(u1); c.check(u2.ValueStr() == v && u3.ValueStr() == v, "unknown", "");
    if (!a.at.empty() || !a.ch.empty()) c.nontrivial();
}
