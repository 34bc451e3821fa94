// C23: every history of insert / refine / stretch / coarsen operations on the refinement forest, every traversal.
#include "hp.h"
#include "Base/LevelTree.h"
using namespace hpgem::Base;
using Tree = LevelTree<int*>;
using Entry = TreeEntry<int*>;

struct Node {
    int id;
    std::size_t level = 0, depth = 1;
    Node* parent = nullptr;
    std::vector<Node*> kids;
    const Entry* entry = nullptr;
};
struct Model {
    std::vector<Node*> roots;
    std::vector<Node*> all() const {
        std::vector<Node*> r;
        std::function<void(Node*)> f = [&](Node* n) {
            r.push_back(n);
            for (auto k : n->kids) f(k);
        };
        for (auto x : roots) f(x);
        return r;
    }
    std::size_t levels() const {
        std::size_t m = 0;
        for (auto n : all()) m = std::max(m, n->level + n->depth);
        return m;
    }
    using Seq = std::vector<std::pair<Node*, std::size_t>>;  // entry and the level at which it is visited
    Seq level(std::size_t l) const {
        Seq r;
        for (auto n : all())
            if (n->level <= l && l < n->level + n->depth) r.push_back({n, l});
        return r;
    }
    Seq allLevel() const {
        Seq r;
        for (std::size_t l = 0; l < levels(); ++l)
            for (auto p : level(l)) r.push_back(p);
        return r;
    }
    Seq pre() const {
        Seq r;
        for (auto n : all())
            for (std::size_t d = 0; d < n->depth; ++d) r.push_back({n, n->level + d});
        return r;
    }
    Seq post() const {
        Seq r;
        std::function<void(Node*)> f = [&](Node* n) {
            for (auto k : n->kids) f(k);
            for (std::size_t d = n->depth; d-- > 0;) r.push_back({n, n->level + d});
        };
        for (auto x : roots) f(x);
        return r;
    }
};

static std::string show(const std::vector<int>& v) {
    std::ostringstream o;
    for (int i : v) o << i << " ";
    return o.str();
}
static std::vector<int> ids(const Model::Seq& s) {
    std::vector<int> r;
    for (auto& p : s) r.push_back(p.first->id);
    return r;
}
template <class It>
std::vector<int> walk(It b, It e, std::size_t limit) {
    std::vector<int> r;
    for (; b != e && r.size() <= limit; ++b) r.push_back(**b);
    return r;
}
template <class It>
std::vector<int> walkPost(It b, It e, std::size_t limit) {
    std::vector<int> r;
    while (b != e && r.size() <= limit) {
        It c = b++;
        r.push_back(**c);
    }
    return r;
}

static void compare(const char* what, const std::vector<int>& got, const std::vector<int>& want) {
    mc::step();
    if (got != want) mc::fail(what, " visits ", show(got), "instead of ", show(want));
}

static void checkMode(Tree& t, const Model& m, const char* name, const Model::Seq& seq) {
    std::vector<int> want = ids(seq), rev(want.rbegin(), want.rend());
    std::size_t lim = want.size() + 8;
    compare(name, walk(t.begin(), t.end(), lim), want);
    compare(name, walkPost(t.begin(), t.end(), lim), want);
    const Tree& ct = t;
    compare((std::string("const ") + name).c_str(), walk(ct.begin(), ct.end(), lim), want);
    compare((std::string("reverse ") + name).c_str(), walk(t.rbegin(), t.rend(), lim), rev);
    compare((std::string("const reverse ") + name).c_str(), walk(ct.rbegin(), ct.rend(), lim), rev);
    // a zig-zag walk: from every position, step back and forth
    auto it = t.begin();
    for (std::size_t i = 0; i + 1 < want.size(); ++i) {
        ++it;
        auto back = it;
        --back;
        mc::require(**back == want[i], name, ": decrement after increment from position ", i, " reaches ", **back);
        auto again = back;
        ++again;
        mc::require(**again == want[i + 1], name, ": increment after decrement from position ", i, " reaches ", **again);
    }
}

static bool stretched(const Model& m) {
    for (auto n : m.all())
        if (n->depth > 1) return true;
    return false;
}

static void checkAll(Tree& t, Model& m, bool modeChanges) {
    mc::require(t.empty() == m.roots.empty(), "empty() wrong");
    mc::require(t.size() == m.roots.size(), "size() is ", t.size());
    mc::require(t.maxLevel() == m.levels(), "maxLevel() is ", t.maxLevel(), " but the deepest entry needs ", m.levels());
    std::size_t nr = 0;
    for (const Entry* e : static_cast<const Tree&>(t).getRootEntries()) {
        mc::require(nr < m.roots.size() && *e->getData() == m.roots[nr]->id, "root list wrong");
        ++nr;
    }
    mc::require(nr == m.roots.size(), "root list has wrong length");
    for (auto n : m.all()) {
        const Entry* e = n->entry;
        mc::require(*e->getData() == n->id, "entry data");
        mc::require(e->getLevel() == n->level, "level of entry ", n->id, " is ", e->getLevel(), " not ", n->level);
        mc::require(e->getDepth() == n->depth, "entry ", n->id, " occupies ", e->getDepth(), " levels, not ", n->depth);
        mc::require(e->isRoot() == (n->parent == nullptr), "isRoot");
        mc::require(e->isLeaf() == n->kids.empty() && e->hasChild() != n->kids.empty(), "isLeaf");
        mc::require(e->getNumberOfChildren() == n->kids.size(), "child count");
        for (std::size_t k = 0; k < n->kids.size(); ++k) mc::require(e->getChild(k) == n->kids[k]->entry, "child ", k);
        if (!n->kids.empty())
            mc::require(e->getFirstChild() == n->kids.front()->entry && e->getLastChild() == n->kids.back()->entry, "first/last child");
        if (n->parent) mc::require(e->getParent() == n->parent->entry, "parent");
        auto& sib = n->parent ? n->parent->kids : m.roots;
        std::size_t pos = std::find(sib.begin(), sib.end(), n) - sib.begin();
        mc::require(e->getSiblingIndex() == pos && e->getNumberOfSiblings() == sib.size(), "sibling position of ", n->id);
        mc::require(e->isFirstSibling() == (pos == 0) && e->isLastSibling() == (pos + 1 == sib.size()), "first/last sibling");
        std::size_t k = 0;
        for (const Entry* s : e->getSiblings()) {
            mc::require(k < sib.size() && s == sib[k]->entry, "sibling list");
            ++k;
        }
        mc::require(k == sib.size(), "sibling list length");
    }
    if (t.empty()) {
        mc::require(!(t.begin() != t.end()), "empty tree has entries");
        return;
    }
    std::size_t L = m.levels();
    for (std::size_t l = 0; l < L; ++l) {
        t.setSingleLevelTraversal(l);
        mc::require(t.getActiveLevel() == l, "active level");
        checkMode(t, m, "single level", m.level(l));
        compare("beginLevel", walk(t.beginLevel(l), t.end(), 100), ids(m.level(l)));
    }
    t.setAllLevelTraversal();
    checkMode(t, m, "all levels", m.allLevel());
    compare("beginAllLevel", walk(t.beginAllLevel(), t.end(), 200), ids(m.allLevel()));
    t.setPreOrderTraversal();
    checkMode(t, m, "pre-order", m.pre());
    compare("beginPreOrder", walk(t.beginPreOrder(), t.end(), 200), ids(m.pre()));
    t.setPostOrderTraversal();
    checkMode(t, m, "post-order", m.post());
    compare("beginPostOrder", walk(t.beginPostOrder(), t.end(), 200), ids(m.post()));
    // changing the order of an existing iterator continues from the same entry in the new order
    if (modeChanges && !stretched(m)) {
        const Model::Seq seqs[3] = {m.allLevel(), m.pre(), m.post()};
        for (int from = 0; from < 4; ++from)
            for (auto n : m.all())
                for (int to = 0; to < 3; ++to) {
                    TreeTraversalMethod me[4] = {TreeTraversalMethod::ALLLEVEL, TreeTraversalMethod::PREORDER, TreeTraversalMethod::POSTORDER,
                                                 TreeTraversalMethod::SINGLELEVEL};
                    auto it = const_cast<Entry*>(n->entry)->getIterator(me[from]);
                    if (to == 0) it.setAllLevelTraversal();
                    if (to == 1) it.setPreOrderTraversal();
                    if (to == 2) it.setPostOrderTraversal();
                    std::vector<int> want;
                    for (auto& p : seqs[to])
                        if (p.first == n || !want.empty()) want.push_back(p.first->id);
                    t.setTraversalMethod(me[to]);
                    compare("re-ordered iterator", walk(it, t.end(), 200), want);
                }
        // single level from an entry: climbs to the ancestor on that level, or descends to the first below/after it
        for (auto n : m.all())
            for (std::size_t l = 0; l < L; ++l) {
                t.setSingleLevelTraversal(l);
                auto it = const_cast<Entry*>(n->entry)->getIterator(TreeTraversalMethod::PREORDER);
                it.setSingleLevelTraversal(l);
                auto all = m.all();
                auto pos = std::find(all.begin(), all.end(), n);
                Node* target = nullptr;
                if (n->level >= l) {
                    target = n;
                    while (target->level > l) target = target->parent;
                } else
                    for (; pos != all.end() && !target; ++pos)
                        if ((*pos)->level == l) target = *pos;
                std::vector<int> want;
                for (auto& p : m.level(l))
                    if (p.first == target || !want.empty()) want.push_back(p.first->id);
                compare("level-restricted iterator", walk(it, t.end(), 200), want);
            }
    }
}

static std::string canon(const Model& m) {
    std::ostringstream o;
    std::function<void(Node*)> f = [&](Node* n) {
        o << "(" << n->depth;
        for (auto k : n->kids) f(k);
        o << ")";
    };
    for (auto x : m.roots) f(x);
    return o.str();
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    hp::quiet();
    mc::S().splitDepth = 4;
    const int maxOps = mc::tier(6, 7);
    const std::size_t maxNodes = mc::tier(7, 8);
    static std::set<std::string> checkedShape;
    return mc::run([&]() {
        static int data[4096];
        std::vector<Node*> garbage;
        int next = 0;
        Tree t;
        Model m;
        struct Cleanup {
            std::vector<Node*>& g;
            ~Cleanup() {
                for (auto n : g) delete n;
            }
        } cleanup{garbage};
        auto fresh = [&](std::size_t level, Node* parent) {
            Node* n = new Node;
            garbage.push_back(n);
            n->id = next;
            data[next] = next;
            ++next;
            n->level = level;
            n->parent = parent;
            return n;
        };
        auto iter = [&](Node* n) {
            return const_cast<Entry*>(n->entry)->getIterator(TreeTraversalMethod::ALLLEVEL);
        };
        // a traversal mode is active while the tree is built, as it is in a mesh
        t.setAllLevelTraversal();
        for (int op = 0; op < maxOps; ++op) {
            auto nodes = m.all();
            struct O {
                int kind;
                Node* n;
                std::size_t arg;
            };
            std::vector<O> ops;
            ops.push_back({-1, nullptr, 0});
            if (nodes.size() < maxNodes) ops.push_back({0, nullptr, 0});
            for (auto n : nodes) {
                if (nodes.size() + 1 <= maxNodes) ops.push_back({1, n, 0});
                if (nodes.size() + 2 <= maxNodes) ops.push_back({2, n, 0});
                if (n->kids.empty() && nodes.size() + 1 <= maxNodes) {
                    ops.push_back({3, n, n->level + n->depth + 1});
                    if (nodes.size() + 2 <= maxNodes) ops.push_back({4, n, n->level + n->depth + 1});
                }
                if (!n->kids.empty()) ops.push_back({5, n, 0});
            }
            if (!nodes.empty())
                for (std::size_t l = 0; l <= m.levels() && l < 4; ++l) ops.push_back({6, nullptr, l});
            if (!nodes.empty()) ops.push_back({7, nullptr, 0});
            O o = ops[mc::choose((int)ops.size())];
            mc::step();
            if (o.kind == -1) break;
            switch (o.kind) {
                case 0: {
                    Node* n = fresh(0, nullptr);
                    mc::note(mc::str("addRoot->", n->id));
                    m.roots.push_back(n);
                    auto it = t.addRootEntry(&data[n->id]);
                    n->entry = it.getTreeEntry();
                    mc::require(**it == n->id, "iterator returned for a new root points elsewhere");
                    break;
                }
                case 1:
                case 3: {
                    if (o.kind == 3) o.n->depth = o.arg - o.n->level;
                    Node* n = fresh(o.n->level + o.n->depth, o.n);
                    mc::note(mc::str("addChild(", o.n->id, o.kind == 3 ? mc::str(", level ", o.arg) : "", ")->", n->id));
                    o.n->kids.push_back(n);
                    auto it = o.kind == 1 ? t.addChild(iter(o.n), &data[n->id]) : t.addChild(iter(o.n), &data[n->id], o.arg);
                    n->entry = it.getTreeEntry();
                    mc::require(**it == n->id, "iterator returned for a new child points elsewhere");
                    break;
                }
                case 2:
                case 4: {
                    if (o.kind == 4) o.n->depth = o.arg - o.n->level;
                    Node* a = fresh(o.n->level + o.n->depth, o.n);
                    Node* b = fresh(o.n->level + o.n->depth, o.n);
                    mc::note(mc::str("addChildren(", o.n->id, o.kind == 4 ? mc::str(", level ", o.arg) : "", ")->", a->id, ",", b->id));
                    std::size_t k = o.n->kids.size();
                    o.n->kids.push_back(a);
                    o.n->kids.push_back(b);
                    std::vector<int*> v{&data[a->id], &data[b->id]};
                    if (o.kind == 2)
                        t.addChildren(iter(o.n), v);
                    else
                        t.addChildren(iter(o.n), v, o.arg);
                    a->entry = o.n->entry->getChild(k);
                    b->entry = o.n->entry->getChild(k + 1);
                    break;
                }
                case 5: {
                    mc::note(mc::str("eraseChilds(", o.n->id, ")"));
                    o.n->kids.clear();
                    o.n->depth = 1;
                    t.eraseChilds(iter(o.n));
                    break;
                }
                case 6: {
                    mc::note(mc::str("fillToLevel(", o.arg, ")"));
                    for (auto n : m.all())
                        if (n->kids.empty() && n->level + n->depth - 1 < o.arg) n->depth = o.arg - n->level + 1;
                    t.fillToLevel(o.arg);
                    break;
                }
                case 7: {
                    mc::note("clear");
                    m.roots.clear();
                    t.clear();
                    break;
                }
            }
        }
        std::string c = canon(m);
        mc::state(c);
        if (m.all().size() < 2) mc::trivial();
        checkAll(t, m, true);
    });
}
