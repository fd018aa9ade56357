// F03: what the plain text and UTT readers put in the lattice.
//   t <w><pre> text     plain text (w: line by line `l' or whole `w'), possibly into a lattice which already holds text (pre)
//   u <segments>        a well-formed UTT document, three characters per line: <form><mode><place>
//   v text              any text given to the UTT reader: read or refused, never anything else
#include "vh.hpp"
#include "lattice_dump.hpp"
#include "txt_lattice_reader.hpp"
#include "utt_lattice_reader.hpp"
#include "annotation_item_manager.hpp"
#include "logging.hpp"
#include <memory>
using std::string; using std::vector; using std::set; using std::multiset;
static size_t cplen(const string& s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xc0) != 0x80; return n; }
static bool validUtf8(const string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (int k = 1; k < n; ++k) if ((s[i + k] & 0xc0) != 0x80) return false;
        unsigned char d = n > 1 ? s[i + 1] : 0;
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90)) return false;
        i += n;
    }
    return true;
}
static string attrs(Lattice& lat, const AnnotationItem& it) { std::map<string, string> m; for (auto& p : lat.getAnnotationItemManager().getValuesAsZvalues(it)) m[p.first] = lat.getAnnotationItemManager().zvalueToString(p.second); string r; for (auto& p : m) r += ";" + p.first + "=" + p.second; return r; }
static multiset<string> edges(Lattice& lat, bool symbols) {
    multiset<string> r;
    Lattice::VertexIterator vi(lat);
    while (vi.hasNext()) {
        Lattice::InOutEdgesIterator ei(lat.allOutEdges(vi.next()));
        while (ei.hasNext()) {
            Lattice::EdgeDescriptor e = ei.next(); bool sym = lat.getEdgeAnnotationItem(e).getCategory()[0] == '\'' && ld::tagSet(lat, lat.getEdgeLayerTags(e)).count("symbol");
            if (sym != symbols) continue;
            AnnotationItem it = lat.getEdgeAnnotationItem(e);
            string s = vh::num(lat.getEdgeSource(e)) + ">" + vh::num(lat.getEdgeTarget(e)) + " " + it.getCategory() + "|" + it.getText() + attrs(lat, it) + " ";
            if (!symbols) for (auto& t : ld::tagSet(lat, lat.getEdgeLayerTags(e))) s += t + ",";
            r.insert(s);
        }
    }
    return r;
}
static multiset<string> symbolsOf(const string& text, size_t from, size_t to) {
    multiset<string> r;
    for (size_t i = from; i < to;) { size_t n = 1; while (i + n < to && (text[i + n] & 0xc0) == 0x80) ++n; r.insert(vh::num(i) + ">" + vh::num(i + n) + " '" + text.substr(i, n) + "|" + text.substr(i, n) + " "); i += n; }
    return r;
}
static string show(const multiset<string>& s) { string r; for (auto& x : s) r += x + " / "; return r; }
static void runTxt(const string& rest) {
    bool whole = rest[0] == 'w'; string pre = rest[1] == '0' ? "" : rest[1] == '1' ? "x" : "\xc4\x87y\n"; string text = rest.substr(2);
    AnnotationItemManager aim; Lattice lat(aim); lat.appendStringWithSymbols(pre);
    vector<string> args = {"", whole ? "--whole-text" : "--line-by-line"};
    std::unique_ptr<TxtLatticeReader> reader(new TxtLatticeReader(whole));
    std::istringstream in(text); string err;
    try { static_cast<LatticeReader<std::istream>*>(reader.get())->readIntoLattice(in, lat); } catch (std::exception& e) { err = "refused"; }
    string body = text; if (!body.empty() && body[body.size() - 1] != '\n') body += "\n";
    if (!validUtf8(text)) { vh::expectEq(err, "refused", "invalid", "reading invalid UTF-8"); vh::outcome("refused"); return; }
    vh::expectEq(err, "", "error", "reading");
    vh::expectEq(vh::esc(lat.getAllText()), vh::esc(pre + body), "text", "text of the lattice");
    multiset<string> want, sym = symbolsOf(pre, 0, pre.size());
    auto frag = [&](size_t b, size_t e) { if (b < e) { want.insert(vh::num(pre.size() + b) + ">" + vh::num(pre.size() + e) + " FRAG|" + body.substr(b, e - b) + " frag,txt-reader,"); auto s = symbolsOf(pre + body, pre.size() + b, pre.size() + e); sym.insert(s.begin(), s.end()); } };
    if (whole) frag(0, body.size());
    else for (size_t i = 0; i < body.size();) { size_t j = body.find('\n', i); frag(i, j); i = j + 1; }
    vh::expectEq(show(edges(lat, false)), show(want), "fragments", "annotations");
    vh::expectEq(show(edges(lat, true)), show(sym), "symbols", "symbols");
    vh::outcome(lat.getAllText()); vh::state(rest); vh::nontrivial(!want.empty());
}
// UTT ----------------------------------------------------------------------------------------------------------------------------------
static const vector<std::pair<string, string> > FORMS = {{"a", "a"}, {"\xc4\x85", "\xc4\x85"}, {"bc", "bc"}, {"a\xc4\x85", "a\xc4\x85"}, {"_", " "}, {"x\\_", "x_"}, {"\\n", "\n"}, {"\xe2\x82\xac" "d", "\xe2\x82\xac" "d"}, {"\\\\", "\\"}, {"\\*", "*"}};
static const vector<std::pair<string, std::map<string, string> > > ANN = {{"", {}}, {" lemma:k,n:sg:f", {{"lemma", "k,n:sg:f"}}}, {" lemma:x tag:y", {{"lemma", "x"}, {"tag", "y"}}}, {" lemma:p_q", {{"lemma", "p q"}}}};
// <form 0-9><mode: p position and length, q position only, n neither><place: e at the end, s the same again, c together with the last one>, or BOS / EOS
static string document(const string& d, string& text, multiset<string>& want, vector<string>& bytes) {
    string doc; size_t lastStart = 0, lastEnd = 0, end = 0; vector<size_t> b = {0}; string lastRaw, lastForm; int n = 0; vector<std::pair<size_t, size_t> > sens; size_t bos = 0; std::map<size_t, set<size_t> > tok;
    for (size_t i = 0; i + 2 < d.size(); i += 3, ++n) {
        if (d[i] == 'B' || d[i] == 'E') {
            doc += (d[i + 1] == 'n' && n ? "" : vh::num(lastEnd) + " 0 ") + (d[i] == 'B' ? "BOS *\n" : "EOS *\n");
            if (d[i] == 'B') bos = lastEnd;
            else if (bos < lastEnd) want.insert(vh::num(b[bos]) + ">" + vh::num(b[lastEnd]) + " sen|" + text.substr(b[bos], b[lastEnd] - b[bos]) + " sentence,");
            continue;
        }
        auto f = FORMS[d[i] - '0']; auto an = ANN[n % ANN.size()]; size_t start = lastEnd; string raw = f.first, form = f.second;
        if (d[i + 2] == 's') { start = lastStart; raw = lastRaw; form = lastForm; }
        else if (d[i + 2] == 'c') { start = lastStart; raw = lastRaw + raw; form = lastForm + form; }
        size_t len = cplen(form);
        if (d[i + 2] != 's') { for (size_t k = 0; k < f.second.size(); ++k) { text += f.second[k]; if (k + 1 == f.second.size() || (f.second[k + 1] & 0xc0) != 0x80) b.push_back(text.size()); } }
        doc += (d[i + 1] == 'p' ? "000" + vh::num(start) + " 0" + vh::num(len) + " " : d[i + 1] == 'q' ? vh::num(start) + " " : "") + "W " + raw + an.first + "\n";
        string at; for (auto& a : an.second) at += ";" + a.first + "=" + a.second;
        want.insert(vh::num(b[start]) + ">" + vh::num(b[start + len]) + " '" + form + "'|" + form + at + " token,");
        lastStart = start; lastEnd = start + len; lastRaw = raw; lastForm = form;
    }
    bytes.clear(); return doc;
}
static void runUtt(const string& d) {
    string text; multiset<string> want; vector<string> b; string doc = document(d, text, want, b);
    if (vh::replaying()) printf("document:\n%s", doc.c_str());
    AnnotationItemManager aim; Lattice lat(aim); UTTLatticeReader reader; std::istringstream in(doc); string err;
    try { static_cast<LatticeReader<std::istream>&>(reader).readIntoLattice(in, lat); } catch (std::exception& e) { err = e.what(); }
    if (!vh::expectEq(err, "", "utt-error", "reading")) return;
    vh::expectEq(vh::esc(lat.getAllText()), vh::esc(text), "utt-text", "text of the lattice");
    set<string> w(want.begin(), want.end()); multiset<string> ws(w.begin(), w.end());                 // an annotation said twice is held once
    vh::expectEq(show(edges(lat, false)), show(ws), "utt-annotations", "annotations");
    vh::expectEq(show(edges(lat, true)), show(symbolsOf(text, 0, text.size())), "utt-symbols", "symbols");
    // a sentence is made of tokens following each other from its beginning to its end
    LayerTagMask m = lat.getLayerTagManager().getSingletonMask("sentence");
    Lattice::EdgesSortedBySourceIterator si(lat, m);
    while (si.hasNext()) {
        Lattice::EdgeDescriptor e = si.next(); Lattice::VertexDescriptor at = lat.getEdgeSource(e); auto ps = lat.getEdgePartitions(e);
        Lattice::Partition::Iterator pi(lat, ps.front());
        while (pi.hasNext()) { auto x = pi.next(); if (!vh::expectEq(lat.getEdgeSource(x), at, "utt-sentence", "the next part of a sentence begins")) break; at = lat.getEdgeTarget(x); }
        vh::expectEq(at, lat.getEdgeTarget(e), "utt-sentence-end", "the parts of a sentence end");
    }
    vh::outcome(show(ws)); vh::state(doc); vh::nontrivial(d.size() > 3);
}
void vh_enumerate(vh::Emit& emit) {
    bool T = vh::thorough();
    vh::strings({"a", "\n", " ", "\xc4\x85", "\r", "\xf0\x9d\x84\x9e", "\x80", "\xc4", "#", string("\0", 1)}, T ? 5 : 4, [&](const string& s) { for (char w : {'l', 'w'}) for (char p : {'0', '1', '2'}) if (p == '0' || s.size() < 4) emit(string("t ") + w + p + s); });
    vector<string> segs; for (int f = 0; f < (int)FORMS.size(); ++f) for (char m : {'p', 'q', 'n'}) for (char pl : {'e', 's', 'c'}) if (pl != 's' || f == 0) segs.push_back(string(1, '0' + f) + m + pl);
    vector<string> few; for (int f : {0, 1, 3, 7}) for (char m : {'p', 'n'}) for (char pl : {'e', 'c'}) few.push_back(string(1, '0' + f) + m + pl);
    few.push_back("0ps"); few.push_back("Bn."); few.push_back("En.");
    auto go = [&](const vector<string>& al, size_t n) { vh::sequences(al.size(), n, [&](const vector<int>& v) {
        string d; for (int i : v) d += al[i];
        for (size_t i = 0; i < d.size(); i += 3) if ((d[i + 2] == 's' || d[i + 2] == 'c') && d[i + 1] == 'n') return;      // a place other than the end has to be given
        bool ok = d[0] == 'B' || (d[1] != 'n' && d[2] == 'e'); int open = 0, toks = 0;      // BOS and EOS alternate, around at least one segment
        for (size_t i = 0; i < d.size() && ok; i += 3) { if (d[i] == 'B') { ok = !open; open = 1; toks = 0; } else if (d[i] == 'E') { ok = open && toks; open = 0; } else { if (d[i + 2] != 'e' && !toks) ok = false; if (toks == 0 && i > 0 && d[i + 2] != 'e') ok = false; ++toks; } }
        if (ok) emit("u " + d); }); };
    vector<string> all = segs; all.push_back("Bn."); all.push_back("En."); all.push_back("Bp."); all.push_back("Ep.");
    for (size_t n = 1; n <= 3; ++n) go(all, n);
    for (size_t n = 4; n <= (T ? 6 : 5); ++n) go(few, n);
    vector<string> plain = {"0ne", "1pe", "3pc", "Bn.", "En."}; for (size_t n = 6; n <= (T ? 9 : 8); ++n) go(plain, n);          // two and more sentences
    vh::strings({"0", "3", " ", "W ", "BOS *", "EOS *", "a", "\n", "\xc4\x85", "\\", "_", "-", "lemma:", "\xc4"}, T ? 6 : 5, [&](const string& s) { emit("v " + s); });
}
void vh_run(const std::string& id) {
    static bool init = false; if (!init) { SET_LOGGING_LEVEL("CRIT"); init = true; }
    string rest = id.substr(2); vh::traces(); vh::transitions(rest.size());
    if (id[0] == 't') runTxt(rest);
    else if (id[0] == 'u') runUtt(rest);
    else {
        AnnotationItemManager aim; Lattice lat(aim); UTTLatticeReader reader; std::istringstream in(rest); string err;
        try { static_cast<LatticeReader<std::istream>&>(reader).readIntoLattice(in, lat); } catch (std::exception& e) { err = "refused"; }
        if (err.empty()) { vh::expect(validUtf8(lat.getAllText()), "utt-any-text", "the text read is not UTF-8"); for (auto& e : edges(lat, false)) vh::outcome(e); }
    }
}
