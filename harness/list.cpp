// P33: intrusive list against the abstract sequence.
#include <list>
#include "common.hpp"
#include "util/util_intrusive_list.hpp"

namespace {

struct Elem;
using List = freewebrtc::util::IntrusiveList<Elem>;

struct Elem {
    explicit Elem(int i) : id(i), a(*this), b(*this) {}
    Elem(Elem&& o, int i) : id(i), a(*this, std::move(o.a)), b(*this, std::move(o.b)) {}
    int id;
    List::Link a;
    char pad[24] = {};
    List::Link b;
};

struct Model {
    // Elements of the list, front first; nothing when the list does not exist.
    std::list<int> seq;
    bool second; // uses the second link of the elements
    std::unique_ptr<List> real;
};

struct World {
    std::map<int, std::unique_ptr<Elem>> elems;
    std::vector<Model> lists;
    std::string trace;
    int next_id = 1;

    List::Link Elem::* member(const Model& m) const { return m.second ? &Elem::b : &Elem::a; }
    std::unique_ptr<List> make(bool second) const { return std::make_unique<List>(second ? &Elem::b : &Elem::a); }
    Model* holder(int id, bool second) {
        for (auto& m : lists) {
            if (m.second == second && m.real && std::find(m.seq.begin(), m.seq.end(), id) != m.seq.end()) { return &m; }
        }
        return nullptr;
    }
    void detach(int id, bool second) { if (auto* m = holder(id, second)) { m->seq.remove(id); } }
};

std::string show(const World& w) {
    std::string s;
    for (auto& m : w.lists) {
        s += m.real ? (m.second ? " b[" : " a[") : " -[";
        for (int i : m.seq) { s += std::to_string(i) + " "; }
        s += "]";
    }
    return s;
}

void verify(vf::Ctx& c, World& w, bool deep) {
    auto say = [&] { return w.trace + " model:" + show(w); };
    for (auto& m : w.lists) {
        if (!m.real) { continue; }
        List& l = *m.real;
        const List& cl = l;
        CHECK(l.empty() == m.seq.empty(), "list.empty", say());
        auto f = l.front(), b = l.back();
        auto cf = cl.front(), cb = cl.back();
        CHECK(f.is_some() == !m.seq.empty() && b.is_some() == !m.seq.empty() && cf.is_some() == f.is_some() && cb.is_some() == b.is_some(), "list.ends", say());
        if (!m.seq.empty()) {
            Elem* fe = w.elems[m.seq.front()].get();
            Elem* be = w.elems[m.seq.back()].get();
            CHECK(&f.unwrap().get() == fe && &cf.unwrap().get() == fe, "list.front", say() << " front is " << f.unwrap().get().id);
            CHECK(&b.unwrap().get() == be && &cb.unwrap().get() == be, "list.back", say() << " back is " << b.unwrap().get().id);
        }
    }
    for (auto& [id, e] : w.elems) {
        CHECK(e->a.in_list() == (w.holder(id, false) != nullptr), "in_list", say() << " element " << id);
        CHECK(e->b.in_list() == (w.holder(id, true) != nullptr), "in_list", say() << " element " << id << " second link");
        CHECK(&e->a.get() == e.get() && &e->b.get() == e.get(), "owner", say() << " element " << id);
    }
    EV("states checked");
    if (!deep) { return; }
    // The whole order, from the front and from the back, by rotation.
    for (auto& m : w.lists) {
        if (!m.real || m.seq.empty()) { continue; }
        bool from_front = c.rng.coin();
        std::vector<int> seen;
        for (size_t i = 0; i < m.seq.size(); ++i) {
            Elem& e = from_front ? m.real->front().unwrap().get() : m.real->back().unwrap().get();
            seen.push_back(e.id);
            CHECK((e.*w.member(m)).in_list(), "in_list", say());
            if (from_front) {
                if (c.rng.coin()) { m.real->pop_front(); CHECK(!(e.*w.member(m)).in_list(), "in_list.popped", say()); }
                m.real->push_back(e);
            } else {
                if (c.rng.coin()) { m.real->pop_back(); CHECK(!(e.*w.member(m)).in_list(), "in_list.popped", say()); }
                m.real->push_front(e);
            }
        }
        if (!from_front) { std::reverse(seen.begin(), seen.end()); }
        CHECK(std::equal(seen.begin(), seen.end(), m.seq.begin(), m.seq.end()), "list.order", say());
        EV("full orders checked");
    }
}

enum Op { PushBack, PushFront, PopBack, PopFront, Remove, MoveElem, DestroyElem, NewElem, LinkAssign, MoveCtor, MoveAssign, Clear, DestroyList, NewList, SelfAssign, OPS };
const char* OP_NAMES[OPS] = {"push_back", "push_front", "pop_back", "pop_front", "remove", "move element", "destroy element", "new element", "link assignment", "list move construction", "list move assignment", "clear", "destroy list", "new list", "self assignment"};

void step(vf::Ctx& c, World& w, Op op) {
    auto any_list = [&](bool existing) -> Model* {
        std::vector<Model*> v;
        for (auto& m : w.lists) { if ((bool)m.real == existing) { v.push_back(&m); } }
        return v.empty() ? nullptr : c.rng.pick(v);
    };
    auto any_elem = [&]() -> Elem* {
        if (w.elems.empty()) { return nullptr; }
        auto it = w.elems.begin();
        std::advance(it, (long)c.rng.below(w.elems.size()));
        return it->second.get();
    };
    auto idx = [&](Model* m) { return std::to_string(m - w.lists.data()); };
    auto done = [&](const std::string& t) { w.trace += t + "; "; vf::ev(std::string("op: ") + OP_NAMES[op]); };
    switch (op) {
    case PushBack: case PushFront: {
        Model* m = any_list(true);
        Elem* e = any_elem();
        if (!m || !e) { return; }
        w.detach(e->id, m->second);
        done(std::string(OP_NAMES[op]) + " " + std::to_string(e->id) + " to " + idx(m));
        if (op == PushBack) { m->real->push_back(*e); m->seq.push_back(e->id); } else { m->real->push_front(*e); m->seq.push_front(e->id); }
        return;
    }
    case PopBack: case PopFront: {
        Model* m = any_list(true);
        if (!m || m->seq.empty()) { return; }
        done(std::string(OP_NAMES[op]) + " of " + idx(m));
        if (op == PopBack) { m->real->pop_back(); m->seq.pop_back(); } else { m->real->pop_front(); m->seq.pop_front(); }
        return;
    }
    case Remove: {
        Elem* e = any_elem();
        if (!e) { return; }
        bool second = c.rng.chance(1, 4);
        done("remove " + std::to_string(e->id) + (second ? "b" : "a"));
        (second ? e->b : e->a).remove();
        w.detach(e->id, second);
        return;
    }
    case MoveElem: { // as a vector or a map would do
        Elem* e = any_elem();
        if (!e) { return; }
        int id = w.next_id++, old = e->id;
        done("move element " + std::to_string(old) + " to " + std::to_string(id));
        w.elems[id] = std::make_unique<Elem>(std::move(*e), id);
        for (auto& m : w.lists) { std::replace(m.seq.begin(), m.seq.end(), old, id); }
        if (c.rng.coin()) { w.elems.erase(old); }
        return;
    }
    case DestroyElem: {
        Elem* e = any_elem();
        if (!e) { return; }
        int id = e->id;
        done("destroy element " + std::to_string(id));
        w.elems.erase(id);
        w.detach(id, false);
        w.detach(id, true);
        return;
    }
    case NewElem: {
        if (w.elems.size() >= 9) { return; }
        int id = w.next_id++;
        done("new element " + std::to_string(id));
        w.elems[id] = std::make_unique<Elem>(id);
        return;
    }
    case LinkAssign: {
        Elem* d = any_elem();
        Elem* s = any_elem();
        if (!d) { return; }
        bool second = c.rng.chance(1, 4);
        done("link of " + std::to_string(d->id) + " = link of " + std::to_string(s->id) + (second ? "b" : "a"));
        if (second) { d->b = std::move(s->b); } else { d->a = std::move(s->a); }
        if (d == s) { return; }
        w.detach(d->id, second);
        if (Model* m = w.holder(s->id, second)) { std::replace(m->seq.begin(), m->seq.end(), s->id, d->id); }
        return;
    }
    case MoveCtor: {
        Model* s = any_list(true);
        Model* d = any_list(false);
        if (!s || !d) { return; }
        done("list " + idx(d) + " constructed from " + idx(s));
        d->second = s->second;
        d->real = std::make_unique<List>(std::move(*s->real));
        d->seq = std::move(s->seq);
        s->seq.clear();
        return;
    }
    case MoveAssign: {
        Model* s = any_list(true);
        Model* d = any_list(true);
        if (!s || d == s || d->second != s->second) { return; }
        done("list " + idx(d) + " = " + idx(s));
        *d->real = std::move(*s->real);
        d->seq = std::move(s->seq);
        s->seq.clear();
        return;
    }
    case SelfAssign: {
        Model* m = any_list(true);
        if (!m) { return; }
        done("list " + idx(m) + " = itself");
        List& l = *m->real;
        l = std::move(*m->real);
        return;
    }
    case Clear: {
        Model* m = any_list(true);
        if (!m) { return; }
        done("clear " + idx(m));
        m->real->clear();
        m->seq.clear();
        return;
    }
    case DestroyList: {
        Model* m = any_list(true);
        if (!m) { return; }
        done("destroy list " + idx(m));
        m->real.reset();
        m->seq.clear();
        return;
    }
    case NewList: {
        Model* m = any_list(false);
        if (!m) { return; }
        m->second = c.rng.chance(1, 4);
        m->real = w.make(m->second);
        done("new list " + idx(m) + (m->second ? "b" : "a"));
        return;
    }
    default: return;
    }
}

}

GROUP("P33", "random", 12000, 300000) {
    World w;
    w.lists.resize(4);
    for (size_t i = 0; i < 3; ++i) { w.lists[i].second = i == 2; w.lists[i].real = w.make(i == 2); }
    w.lists[3].second = false;
    unsigned n = 3 + (unsigned)c.rng.below(5);
    for (unsigned i = 0; i < n; ++i) { step(c, w, NewElem); }
    unsigned steps = 4 + (unsigned)c.rng.below(40);
    // Some operations are more frequent in each history.
    unsigned weight[OPS];
    for (unsigned k = 0; k < OPS; ++k) { weight[k] = 1 + (unsigned)c.rng.below(4); }
    weight[PushBack] += 8; weight[PushFront] += 8;
    unsigned sum = 0;
    for (auto x : weight) { sum += x; }
    for (unsigned i = 0; i < steps; ++i) {
        unsigned r = (unsigned)c.rng.below(sum), op = 0;
        while (r >= weight[op]) { r -= weight[op++]; }
        step(c, w, (Op)op);
        verify(c, w, c.rng.chance(1, 5));
    }
    verify(c, w, true);
    c.distinct(vf::Hash().add(w.trace));
    c.sample(w.trace + show(w));
    // Destruction in any order: lists before elements or after them, or mixed.
    while (!w.elems.empty() || std::any_of(w.lists.begin(), w.lists.end(), [](auto& m) { return (bool)m.real; })) {
        step(c, w, c.rng.coin() ? DestroyElem : DestroyList);
        verify(c, w, c.rng.chance(1, 6));
    }
}

// Every sequence of up to five operations on two lists and three elements.
GROUP("P33", "small", 14 * 14, 14 * 14) {
    // Operations: 0-2 push_back of i to list 0; 3-5 push_front of i to list 1; 6,7 pops;
    // 8-10 remove i; 11 move list 0 to 1; 12 link assignment; 13 element move.
    auto apply = [&](World& w, unsigned op) {
        Model& l0 = w.lists[0];
        Model& l1 = w.lists[1];
        auto id_of = [&](unsigned k) { auto it = w.elems.begin(); std::advance(it, k); return it->first; };
        if (op < 3) { int id = id_of(op); w.detach(id, false); l0.real->push_back(*w.elems[id]); l0.seq.push_back(id); }
        else if (op < 6) { int id = id_of(op - 3); w.detach(id, false); l1.real->push_front(*w.elems[id]); l1.seq.push_front(id); }
        else if (op == 6) { if (!l0.seq.empty()) { l0.real->pop_front(); l0.seq.pop_front(); } }
        else if (op == 7) { if (!l1.seq.empty()) { l1.real->pop_back(); l1.seq.pop_back(); } }
        else if (op < 11) { int id = id_of(op - 8); w.elems[id]->a.remove(); w.detach(id, false); }
        else if (op == 11) { *l1.real = std::move(*l0.real); l1.seq = std::move(l0.seq); l0.seq.clear(); }
        else if (op == 12) {
            int d = id_of(0), s = id_of(1);
            w.elems[d]->a = std::move(w.elems[s]->a);
            w.detach(d, false);
            if (Model* m = w.holder(s, false)) { std::replace(m->seq.begin(), m->seq.end(), s, d); }
        } else {
            int old = id_of(2), id = w.next_id++;
            w.elems[id] = std::make_unique<Elem>(std::move(*w.elems[old]), id);
            for (auto& m : w.lists) { std::replace(m.seq.begin(), m.seq.end(), old, id); }
            w.elems.erase(old);
        }
        w.trace += std::to_string(op) + " ";
    };
    const unsigned depth = c.thorough ? 5 : 4;
    unsigned total = 1;
    for (unsigned i = 2; i < depth; ++i) { total *= 14; }
    for (unsigned k = 0; k < total; ++k) {
        World w;
        w.lists.resize(2);
        for (auto& m : w.lists) { m.second = false; m.real = w.make(false); }
        for (int i = 0; i < 3; ++i) { int id = w.next_id++; w.elems[id] = std::make_unique<Elem>(id); }
        apply(w, (unsigned)(c.idx / 14));
        apply(w, (unsigned)(c.idx % 14));
        for (unsigned i = 2, x = k; i < depth; ++i, x /= 14) { apply(w, x % 14); }
        verify(c, w, true);
        c.distinct(vf::Hash().add(w.trace));
        EV("operation sequences enumerated");
    }
}
