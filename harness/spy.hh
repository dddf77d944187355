// Recording of what the propagator does: this interposes the functions of the
// clingo API that clingcon calls to register its propagator and to add clauses
// during the search (linked with --wrap), and looks at the propagator's state
// (friend declaration under CLINGCON_VERIF) after each of its callbacks.
#pragma once

#include <clingcon/constraints.hh>
#include <clingcon/propagator.hh>
#include <clingo.h>

#include <mutex>
#include <set>
#include <string>

namespace Clingcon {

struct VerifAccess {
    static auto solvers(Propagator &p) -> std::vector<Solver> & { return p.solvers_; }
    static auto constraints(Propagator &p) -> ConstraintVec & { return p.constraints_; }
    static auto num_variables(Solver &s) -> size_t { return s.var2vs_.size(); }
};

} // namespace Clingcon

namespace Spy {

using namespace Clingcon;

struct State {
    Propagator *prp{nullptr};
    clingo_propagator_t inner{};
    FILE *out{nullptr};
    std::string id;
    std::mutex mut;
    size_t events{0};
    size_t limit{0};
    std::set<std::string> seen; // clauses already recorded in this step
    // calls since the statistics have been read
    uint64_t clauses{0};
    uint64_t literals{0};
    uint64_t weights{0};
    std::vector<uint64_t> introduced;
};

inline State g;

inline bool open() { return g.prp != nullptr && g.out != nullptr && g.events < g.limit; }

// Must hold the lock.
inline void emit(std::string const &body) {
    std::string line = "{\"s\":\"" + g.id + "\",\"n\":-2,\"e\":\"spy\"," + body + "}\n";
    std::fwrite(line.data(), 1, line.size(), g.out);
    ++g.events;
}

inline std::string num(int64_t x) { return std::to_string(x); }

inline std::string pairs(CoVarVec const &v) {
    std::string r;
    for (auto [co, var] : v) {
        r += (r.empty() ? "[" : ",[") + num(co) + "," + num(var + 1) + "]";
    }
    return "[" + r + "]";
}

// This includes the variables introduced by translation.
inline size_t nvars(Solver &s) { return VerifAccess::num_variables(s); }

inline std::string bounds(Solver &s, bool top) {
    std::string r;
    auto n = nvars(s);
    for (var_t v = 0; v < n; ++v) {
        auto &vs = s.var_state(v);
        r += (v > 0 ? ",[" : "[") + num(top ? vs.min_bound() : vs.lower_bound()) + "," +
             num(top ? vs.max_bound() : vs.upper_bound()) + "]";
    }
    return "[" + r + "]";
}

// Call f(var, value, lit) for all order literals of the solver.
template <class F> void order(Solver &s, F f) {
    auto n = nvars(s);
    for (var_t v = 0; v < n; ++v) {
        auto &vs = s.var_state(v);
        vs.with([&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
            for (auto it = ib; it != ie; inc(it)) {
                f(v, get_val(it), get_lit(it));
            }
            return true;
        });
    }
}

inline std::string constraints() {
    std::string r;
    auto add = [&r](std::string const &x) { r += (r.empty() ? "{" : ",{") + x + "}"; };
    for (auto &c : VerifAccess::constraints(*g.prp)) {
        std::string lit = "\"lit\":" + num(c->literal());
        if (auto *x = dynamic_cast<SumConstraint *>(c.get()); x != nullptr) {
            add("\"k\":\"sum\"," + lit + ",\"e\":" + pairs(CoVarVec(x->begin(), x->end())) + ",\"r\":" + num(x->rhs()));
        } else if (auto *x = dynamic_cast<MinimizeConstraint *>(c.get()); x != nullptr) {
            add("\"k\":\"min\"," + lit + ",\"e\":" + pairs(CoVarVec(x->begin(), x->end())) + ",\"r\":" +
                num(x->adjust()));
        } else if (auto *x = dynamic_cast<NonlinearConstraint *>(c.get()); x != nullptr) {
            add("\"k\":\"nl\"," + lit + ",\"a\":" + num(x->co_a()) + ",\"x\":" + num(x->var_x() + 1) + ",\"y\":" +
                num(x->var_y() + 1) + ",\"b\":" + num(x->has_co_c() ? x->co_b() : 0) + ",\"z\":" +
                num(x->has_co_c() ? x->var_z() + 1 : 1) + ",\"r\":" + num(x->rhs()));
        } else if (auto *x = dynamic_cast<DistinctConstraint *>(c.get()); x != nullptr) {
            std::string e;
            for (auto const &t : *x) {
                e += (e.empty() ? "{" : ",{") + std::string("\"f\":") + num(t.fixed()) + ",\"t\":" +
                     pairs(CoVarVec(t.begin(), t.end())) + "}";
            }
            add("\"k\":\"distinct\"," + lit + ",\"e\":[" + e + "]");
        } else if (auto *x = dynamic_cast<DisjointConstraint *>(c.get()); x != nullptr) {
            add("\"k\":\"disjoint\"," + lit + ",\"e\":" + pairs(CoVarVec(x->begin(), x->end())));
        } else {
            add("\"k\":\"?\"," + lit);
        }
    }
    return "[" + r + "]";
}

// --- callbacks of the propagator -------------------------------------------

inline bool init(clingo_propagate_init_t *i, void *data) {
    bool ret = g.inner.init(i, data);
    std::lock_guard<std::mutex> lock{g.mut};
    g.prp = static_cast<Propagator *>(data);
    g.seen.clear();
    if (ret && open()) {
        auto &ss = VerifAccess::solvers(*g.prp);
        std::string b;
        for (auto &s : ss) {
            b += (b.empty() ? "" : ",") + bounds(s, false);
        }
        std::string o;
        order(ss.front(), [&o](var_t var, val_t val, lit_t lit) {
            o += (o.empty() ? "[" : ",[") + num(lit) + "," + num(var + 1) + "," + num(val) + "]";
        });
        emit("\"k\":\"init\",\"cons\":" + constraints() + ",\"bs\":[" + b + "],\"o\":[" + o + "]");
    }
    return ret;
}

inline void after(clingo_propagate_control_t *c) {
    std::lock_guard<std::mutex> lock{g.mut};
    if (open()) {
        Clingo::PropagateControl ctl{c};
        auto &s = VerifAccess::solvers(*g.prp)[ctl.thread_id()];
        emit("\"k\":\"pr\",\"th\":" + num(ctl.thread_id() + 1) + ",\"dl\":" +
             num(ctl.assignment().decision_level()) + ",\"b\":" + bounds(s, false));
    }
}

inline bool propagate(clingo_propagate_control_t *c, clingo_literal_t const *ch, size_t n, void *data) {
    bool ret = g.inner.propagate(c, ch, n, data);
    after(c);
    return ret;
}

inline bool check(clingo_propagate_control_t *c, void *data) {
    bool ret = g.inner.check(c, data);
    after(c);
    return ret;
}

inline void undo(clingo_propagate_control_t const *c, clingo_literal_t const *ch, size_t n, void *data) {
    Clingo::PropagateControl ctl{const_cast<clingo_propagate_control_t *>(c)};
    g.inner.undo(c, ch, n, data);
    std::lock_guard<std::mutex> lock{g.mut};
    if (open()) {
        auto &s = VerifAccess::solvers(*g.prp)[ctl.thread_id()];
        emit("\"k\":\"un\",\"th\":" + num(ctl.thread_id() + 1) + ",\"dl\":" +
             num(ctl.assignment().decision_level()) + ",\"b\":" + bounds(s, false));
    }
}

inline bool decide(clingo_id_t thread, clingo_assignment_t const *a, clingo_literal_t fallback, void *data,
                   clingo_literal_t *decision) {
    *decision = fallback;
    bool ret = g.inner.decide == nullptr || g.inner.decide(thread, a, fallback, data, decision);
    std::lock_guard<std::mutex> lock{g.mut};
    if (ret && open()) {
        Clingo::Assignment ass{a};
        auto &s = VerifAccess::solvers(*g.prp)[thread];
        std::string o;
        order(s, [&](var_t var, val_t val, lit_t lit) {
            auto t = ass.truth_value(lit);
            o += (o.empty() ? "[" : ",[") + num(lit) + "," + num(var + 1) + "," + num(val) + "," +
                 (t == Clingo::TruthValue::True ? "1" : t == Clingo::TruthValue::False ? "0" : "2") + "]";
        });
        std::string ct;
        for (auto &c : VerifAccess::constraints(*g.prp)) {
            auto t = ass.truth_value(c->literal());
            ct += (ct.empty() ? "" : ",") +
                  std::string(t == Clingo::TruthValue::True ? "1" : t == Clingo::TruthValue::False ? "0" : "2");
        }
        auto mb = s.minimize_bound();
        emit("\"k\":\"str\",\"th\":" + num(thread + 1) + ",\"b\":" + bounds(s, false) + ",\"ct\":[" + ct +
             "],\"mb\":[" + (mb.has_value() ? num(*mb) : "") + "]");
        auto t = *decision == 0 ? Clingo::TruthValue::Free : ass.truth_value(*decision);
        emit("\"k\":\"fix\",\"th\":" + num(thread + 1) + ",\"dl\":" + num(ass.decision_level()) + ",\"b\":" +
             bounds(s, false) + ",\"t\":" + bounds(s, true) + ",\"o\":[" + o + "],\"free\":" +
             (t == Clingo::TruthValue::Free ? "true" : "false"));
    }
    return ret;
}

inline void clause(clingo_propagate_control_t *c, clingo_literal_t const *lits, size_t n, clingo_clause_type_t type) {
    std::lock_guard<std::mutex> lock{g.mut};
    if (!open()) {
        return;
    }
    Clingo::PropagateControl ctl{c};
    auto th = ctl.thread_id();
    auto &s = VerifAccess::solvers(*g.prp)[th];
    auto ass = ctl.assignment();
    std::string l, o, t;
    std::set<lit_t> in;
    for (size_t i = 0; i < n; ++i) {
        l += (i > 0 ? "," : "") + num(lits[i]);
        in.emplace(std::abs(lits[i]));
    }
    order(s, [&](var_t var, val_t val, lit_t lit) {
        if (std::abs(lit) != TRUE_LIT && in.find(std::abs(lit)) != in.end()) {
            o += (o.empty() ? "[" : ",[") + num(lit) + "," + num(var + 1) + "," + num(val) + "]";
        }
    });
    std::set<lit_t> top;
    for (auto &cs : VerifAccess::constraints(*g.prp)) {
        auto lit = cs->literal();
        if (ass.is_fixed(lit) && ass.is_true(lit) && top.emplace(lit).second) {
            t += (t.empty() ? "" : ",") + num(lit);
        }
    }
    auto b = s.minimize_bound();
    std::string body = "\"k\":\"cl\",\"th\":" + num(th + 1) + ",\"type\":" + num(type) + ",\"l\":[" + l + "],\"o\":[" + o +
                       "],\"t\":" + bounds(s, true) + ",\"top\":[" + t + "],\"mb\":[" + (b.has_value() ? num(*b) : "") +
                       "]";
    if (g.seen.emplace(body).second) {
        emit(body);
    }
}

// What was added at the interface since the last call and the number of
// constraints that are propagated.
inline std::string counts() {
    std::lock_guard<std::mutex> lock{g.mut};
    std::string t;
    for (auto x : g.introduced) {
        t += (t.empty() ? "" : ",") + num(static_cast<int64_t>(x));
    }
    auto cons = g.prp != nullptr ? VerifAccess::constraints(*g.prp).size() : 0;
    std::string r = ",\"at\":{\"clauses\":" + std::to_string(g.clauses) + ",\"literals\":" + std::to_string(g.literals) +
                    ",\"weights\":" + std::to_string(g.weights) + ",\"cons\":" + std::to_string(cons) + ",\"intro\":[" + t + "]}";
    g.clauses = g.literals = g.weights = 0;
    g.introduced.assign(g.introduced.size(), 0);
    return r;
}

// A solution is about to be reported by the given thread.
inline void model(uint32_t thread) {
    std::lock_guard<std::mutex> lock{g.mut};
    if (open()) {
        auto &s = VerifAccess::solvers(*g.prp)[thread];
        std::string c;
        if (g.prp->has_minimize()) {
            c = num(g.prp->get_minimize_value(thread));
        }
        emit("\"k\":\"model\",\"th\":" + num(thread + 1) + ",\"b\":" + bounds(s, false) + ",\"c\":[" + c + "]");
    }
}

} // namespace Spy

extern "C" {
bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);
bool __wrap_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *prp, void *data,
                                               bool seq) {
    Spy::g.inner = *prp;
    clingo_propagator_t p = {Spy::init, Spy::propagate, Spy::undo, Spy::check, Spy::decide};
    return __real_clingo_control_register_propagator(ctl, &p, data, seq);
}
bool __real_clingo_propagate_control_add_clause(clingo_propagate_control_t *, clingo_literal_t const *, size_t,
                                                clingo_clause_type_t, bool *);
bool __wrap_clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *lits, size_t n,
                                                clingo_clause_type_t type, bool *res) {
    Spy::clause(c, lits, n, type);
    return __real_clingo_propagate_control_add_clause(c, lits, n, type, res);
}
bool __real_clingo_propagate_control_add_literal(clingo_propagate_control_t *, clingo_literal_t *);
bool __wrap_clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *lit) {
    {
        std::lock_guard<std::mutex> lock{Spy::g.mut};
        auto th = clingo_propagate_control_thread_id(c);
        if (Spy::g.introduced.size() <= th) {
            Spy::g.introduced.resize(th + 1, 0);
        }
        ++Spy::g.introduced[th];
    }
    return __real_clingo_propagate_control_add_literal(c, lit);
}
bool __real_clingo_propagate_init_add_literal(clingo_propagate_init_t *, bool, clingo_literal_t *);
bool __wrap_clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool freeze, clingo_literal_t *lit) {
    ++Spy::g.literals;
    return __real_clingo_propagate_init_add_literal(i, freeze, lit);
}
bool __real_clingo_propagate_init_add_clause(clingo_propagate_init_t *, clingo_literal_t const *, size_t, bool *);
bool __wrap_clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *lits, size_t n, bool *res) {
    ++Spy::g.clauses;
    return __real_clingo_propagate_init_add_clause(i, lits, n, res);
}
bool __real_clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *, clingo_literal_t,
                                                        clingo_weighted_literal_t const *, size_t, clingo_weight_t,
                                                        clingo_weight_constraint_type_t, bool, bool *);
bool __wrap_clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *i, clingo_literal_t lit,
                                                        clingo_weighted_literal_t const *lits, size_t n,
                                                        clingo_weight_t bound, clingo_weight_constraint_type_t type,
                                                        bool eq, bool *res) {
    ++Spy::g.weights;
    return __real_clingo_propagate_init_add_weight_constraint(i, lit, lits, n, bound, type, eq, res);
}
}
