// Z01: syntactic trees keep their subtrees in order, whatever history of editing; hashes keep what was put into them.
#include "vh.hpp"
#include "annotation_item_manager.hpp"
using std::string; using std::vector; using std::map;
static const int N = 4;
struct MN { int parent = -1, label = -1; vector<int> kids; map<int, int> attr; };
struct Op { char k; int i, j, x; string s() const { return string(1, k) + vh::num(i) + vh::num(j) + vh::num(x); } };
static bool under(const vector<MN>& m, int a, int b) { for (int p = b; p >= 0; p = m[p].parent) if (p == a) return true; return false; }  // b in the subtree of a
static vector<Op> enabled(const vector<MN>& m) {
    vector<Op> r;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        if (m[j].parent < 0 && !under(m, j, i)) { for (int l = 0; l < 3; ++l) r.push_back({'a', i, j, l}); r.push_back({'l', i, j, 0}); if (m[i].parent >= 0) { r.push_back({'b', i, j, 0}); r.push_back({'b', i, j, 1}); } }
        if (m[j].parent == i) { r.push_back({'d', i, j, 0}); r.push_back({'t', i, j, 0}); if (m[i].parent >= 0) r.push_back({'r', i, j, 0}); }
    }
    for (int i = 0; i < N; ++i) { r.push_back({'s', i, 0, i % 2}); r.push_back({'n', i, 0, 0}); r.push_back({'n', i, 0, 1}); }
    return r;
}
static void model(vector<MN>& m, const Op& o) {
    auto detach = [&](int j) { int p = m[j].parent; auto& k = m[p].kids; k.erase(std::find(k.begin(), k.end(), j)); m[j].parent = -1; };
    switch (o.k) {
        case 'a': m[o.i].kids.push_back(o.j); m[o.j].parent = o.i; m[o.j].label = o.x == 2 ? -1 : o.x; break;
        case 'l': m[o.i].kids.insert(m[o.i].kids.begin(), o.j); m[o.j].parent = o.i; m[o.j].label = -1; break;
        case 'b': { int p = m[o.i].parent; auto& k = m[p].kids; k.insert(std::find(k.begin(), k.end(), o.i) + o.x, o.j); m[o.j].parent = p; m[o.j].label = -1; break; }
        case 'd': case 't': detach(o.j); break;
        case 'r': { detach(o.j); int p = m[o.i].parent; auto& k = m[p].kids; *std::find(k.begin(), k.end(), o.i) = o.j; m[o.i].parent = -1; m[o.j].parent = p; break; }
        case 's': m[o.i].attr[0] = o.x; break;
        case 'n': { bool set = false; for (int k : m[o.i].kids) if (m[k].attr.count(0)) { set = true; m[o.i].attr[0] = m[k].attr[0]; if (m[k].label == 0) break; } if (!set && o.x) m[o.i].attr[0] = 7; break; }
    }
}
static string show(const vector<MN>& m) { string r; for (int i = 0; i < N; ++i) { r += vh::num(i) + "["; for (int k : m[i].kids) { r += vh::num(k); r += m[k].label < 0 ? "" : m[k].label == 0 ? "#" : "L"; } r += "]"; for (auto& a : m[i].attr) r += "=" + vh::num(a.second); r += " "; } return r; }

struct Real {
    AnnotationItemManager man; zsyntree* t[N]; zsymbol *lab[2], *cat[2], *attr;
    Real() { auto* f = man.getSymbolFactory(); lab[0] = f->get_symbol("#"); lab[1] = f->get_symbol("L"); cat[0] = f->get_symbol("X"); cat[1] = f->get_symbol("Y"); attr = f->get_symbol("A");
        for (int i = 0; i < N; ++i) { t[i] = zsyntree::generate(man.getZObjectsHolderPtr()); t[i]->setCategory(cat[i % 2]); } }
    void apply(const Op& o) {
        switch (o.k) {
            case 'a': if (o.x == 2) t[o.i]->insertRight(t[o.j]); else t[o.i]->addSubtree(t[o.j], lab[o.x]); break;
            case 'l': t[o.i]->insertLeft(t[o.j]); break;
            case 'b': t[o.i]->insertBeside(t[o.j], o.x); break;
            case 'd': vh::expect(t[o.i]->deleteSubtree(t[o.j]) == t[o.j], "delete", "deleteSubtree returns another tree"); break;
            case 't': t[o.j]->detachFromParent(); break;
            case 'r': t[o.i]->replaceWith(t[o.j]); break;
            case 's': t[o.i]->setAttr(attr, INTEGER_TO_ZVALUE(o.x)); break;
            case 'n': t[o.i]->inherit(attr, o.x ? INTEGER_TO_ZVALUE(7) : DEFAULT_ZVALUE); break;
        }
    }
    int ix(zsyntree* z) { for (int i = 0; i < N; ++i) if (t[i] == z) return i; return z ? -2 : -1; }
    void check(const vector<MN>& m, const string& when) {
        for (int i = 0; i < N; ++i) {
            string d = when + " (expected " + show(m) + ") tree " + vh::num(i); const MN& n = m[i];
            vh::expectEq(t[i]->last_subtree, (int)n.kids.size() - 1, "subtrees", d + " last subtree");
            vh::expectEq(ix(t[i]->parent_tree), n.parent, "parent", d + " parent");
            int num = -1; if (n.parent >= 0) num = std::find(m[n.parent].kids.begin(), m[n.parent].kids.end(), i) - m[n.parent].kids.begin();
            vh::expectEq(t[i]->number_in_parent_tree, num, "number", d + " number in parent");
            for (size_t k = 0; k < n.kids.size(); ++k) { vh::expectEq(ix(t[i]->getSubtree(k)), n.kids[k], "subtrees", d + " subtree " + vh::num(k));
                vh::expect(t[n.kids[k]]->getLabel() == (m[n.kids[k]].label < 0 ? 0 : lab[m[n.kids[k]].label]), "label", d + " label of subtree " + vh::num(k)); }
            for (int c = -1; c < 2; ++c) for (int l = -1; l < 2; ++l) for (int left = 0; left < 2; ++left) {
                int w = -1; vector<int> ks = n.kids; if (!left) std::reverse(ks.begin(), ks.end());
                for (int k : ks) if ((c < 0 || k % 2 == c) && (l < 0 || m[k].label == l)) { w = k; break; }
                vh::expectEq(ix(t[i]->find(c < 0 ? 0 : cat[c], l < 0 ? 0 : lab[l], left)), w, "find", d + " find category " + vh::num(c) + " label " + vh::num(l) + (left ? " from the left" : " from the right"));
            }
            zvalue a = t[i]->getAttr(attr); auto f = n.attr.find(0);
            vh::expect(a == (f == n.attr.end() ? NULL_ZVALUE : INTEGER_TO_ZVALUE(f->second)), "attr", d + " attribute");
            vh::expect(t[i]->getCategory() == cat[i % 2], "category", d + " category");
        }
    }
};
static int colliding(zvalue) { return 6; }
static int second(zvalue z) { return (int)(long)z % 2; }
void vh_run(const string& id) {
    if (id[0] == 'h') {
        Real r; vector<MN> m(N); string done;
        for (size_t p = 1; p + 4 <= id.size(); p += 4) { Op o = {id[p], id[p + 1] - '0', id[p + 2] - '0', id[p + 3] - '0'}; model(m, o); r.apply(o); done += o.s() + " "; vh::transitions(); r.check(m, "after " + done); vh::state(show(m)); }
        vh::traces(); vh::outcome(show(m));
    } else {  // a zhash against a multiset; digits: put value, letters: remove
        AnnotationItemManager man; int mode = id[1] - '0'; zhash* h = zhash::generate(man.getZObjectsHolderPtr(), 4, mode == 0 ? standard_zvalue_hash_function : mode == 1 ? colliding : second);
        std::multiset<int> m; string done;
        for (size_t p = 2; p < id.size(); ++p) {
            char c = id[p]; done += c; vh::transitions();
            if (isdigit(c)) { int v = c - '0'; h->put(INTEGER_TO_ZVALUE(v)); m.insert(v); }
            else { int v = c - 'a'; zvalue z = h->remove(INTEGER_TO_ZVALUE(v)); auto f = m.find(v); vh::expect(z == (f == m.end() ? NULL_ZVALUE : INTEGER_TO_ZVALUE(v)), "hash-remove", "hash after " + done); if (f != m.end()) m.erase(f); }
            for (int v = 0; v < 5; ++v) {
                vh::expect(h->get(INTEGER_TO_ZVALUE(v)) == (m.count(v) ? INTEGER_TO_ZVALUE(v) : NULL_ZVALUE), "hash-get", "hash after " + done + " looking up " + vh::num(v));
                int i = 0; size_t n = 0; while (!NULLP(h->getNext(INTEGER_TO_ZVALUE(v), i))) { ++n; ++i; } vh::expectEq(n, m.count(v), "hash-count", "hash after " + done + " occurrences of " + vh::num(v));
            }
            int size; zvalue* b = h->getAll(size); size_t n = 0; for (int k = 0; k < size; ++k) if (!NULLP(b[k]) && !DELETEDP(b[k])) ++n; vh::expectEq(n, m.size(), "hash-all", "hash after " + done + " all values");
            string s; for (int v : m) s += vh::num(v); vh::state("hash" + s);
        }
        vh::traces();
    }
}
static void gen(vh::Emit& emit, const string& pre, const vector<MN>& m, int left, int& budget, bool editsOnly) {
    for (auto& o : enabled(m)) {
        if (editsOnly && (o.k == 's' || o.k == 'n' || o.k == 't' || (o.k == 'a' && o.x == 1))) continue;
        string id = pre + o.s(); vector<MN> n = m; model(n, o);
        if (left == 1) emit(id); else gen(emit, id, n, left - 1, budget, editsOnly);
    }
}
void vh_enumerate(vh::Emit& emit) {
    int b = 0; vector<MN> m(N);
    for (int d = 1; d <= 3; ++d) gen(emit, "h", m, d, b, false);
    gen(emit, "h", m, 4, b, true); if (vh::thorough()) { gen(emit, "h", m, 4, b, false); gen(emit, "h", m, 5, b, true); }
    for (int mode = 0; mode < 3; ++mode) vh::strings({"0", "1", "2", "a", "b", "c", "3"}, vh::thorough() ? 8 : 6, [&](const string& s) { emit("z" + vh::num(mode) + s); }, 6);
    // long regular histories: growth, deletion and reuse of places
    for (int mode = 0; mode < 3; ++mode) for (int per = 1; per <= 6; ++per) vh::strings({"0", "1", "a", "b", "c", "4"}, vh::thorough() ? 5 : 4, [&](const string& s) { string r; for (int i = 0; i < 6 * per; ++i) r += s; emit("z" + vh::num(mode) + r); }, 2);
}
