// Types driver: executes operations on the data types used for domains, order
// literals and todo lists, and prints the answers to queries.  Reads commands
// from stdin; every command with an answer prints one line.
#include <clingcon/base.hh>
#include <clingcon/solver.hh>
#include <clingcon/util.hh>

#include <iostream>
#include <list>
#include <memory>
#include <sstream>

using namespace Clingcon;

namespace {

struct Elem {
    int id;
    bool flag_unique{false};
};

template <class T> void set_query(IntervalSet<T> &s, std::vector<T> const &f, std::ostream &o) {
    o << (s.empty() ? "e" : "n");
    for (auto const &[x, y] : s) {
        o << " " << x << ":" << y;
    }
    o << " |";
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
        o << " " << it->first << ":" << it->second;
    }
    o << " |";
    for (size_t i = 0; i + 1 < f.size(); ++i) {
        // first and last value of the cell
        o << " " << s.contains(f[i]) << s.contains(static_cast<T>(f[i + 1] - 1));
    }
    o << " |";
    for (size_t i = 0; i < f.size(); ++i) {
        for (size_t j = i + 1; j < f.size(); ++j) {
            o << " " << s.contains(f[i], f[j]) << s.intersects(f[i], f[j]);
        }
    }
    o << " |" << s.intersects(f[1], f[0]) << s.intersects(f[1], f[1]);
    o << " |";
    int n = 0;
    s.enumerate([&](T v) {
        o << " " << v;
        return ++n < 12;
    });
    o << "\n";
}

template <class T> void sets(std::istream &in) {
    size_t n = 0;
    in >> n;
    std::vector<T> f(n);
    for (auto &x : f) {
        in >> x;
    }
    auto a = std::make_unique<IntervalSet<T>>();
    auto b = std::make_unique<IntervalSet<T>>();
    std::string op;
    while (in >> op && op != "end") {
        if (op == "add" || op == "addb") {
            size_t x = 0;
            size_t y = 0;
            in >> x >> y;
            (op == "add" ? a : b)->add(f[x], f[y]);
        } else if (op == "extend") {
            a->extend(*b);
        } else if (op == "copy") {
            *b = *a;
        } else if (op == "clear") {
            a->clear();
        } else if (op == "swap") {
            std::swap(*a, *b);
        }
        set_query(*a, f, std::cout);
    }
}

void uvec(std::istream &in) {
    size_t n = 0;
    in >> n;
    std::vector<Elem> elems;
    for (size_t i = 0; i < n; ++i) {
        elems.push_back({static_cast<int>(i) + 1});
    }
    UniqueVector<Elem *> v;
    std::string op;
    while (in >> op && op != "end") {
        size_t r = 0;
        if (op == "append") {
            size_t x = 0;
            in >> x;
            r = v.append(&elems[x - 1]) ? 1 : 0;
        } else if (op == "extend") {
            std::vector<Elem *> e;
            for (int i = 0; i < 3; ++i) {
                size_t x = 0;
                in >> x;
                e.push_back(&elems[x - 1]);
            }
            r = v.extend(e.begin(), e.end());
        } else if (op == "erase") {
            size_t i = 0;
            in >> i;
            v.erase(v.begin() + static_cast<ptrdiff_t>(i) - 1);
        } else if (op == "clear") {
            v.clear();
        }
        std::cout << r << " " << v.size() << " " << v.empty() << " |";
        for (auto *x : v) {
            std::cout << " " << x->id;
        }
        std::cout << " |";
        auto const &c = v;
        for (auto it = c.begin(); it != c.end(); ++it) {
            std::cout << " " << (*it)->id;
        }
        std::cout << " |";
        for (auto &x : elems) {
            std::cout << " " << v.contains(&x);
        }
        std::cout << "\n";
    }
}

void opt(VarState::OrderLiteralOpt const &x, lit_t lit) {
    if (x) {
        std::cout << " " << x->first << "@" << x->second << (x->first == lit ? "" : "!");
    } else {
        std::cout << " -" << (lit == 0 ? "" : "!");
    }
}

void var(std::istream &in) {
    size_t n = 0;
    size_t d = 0;
    in >> n >> d;
    std::vector<val_t> f(n);
    for (auto &x : f) {
        in >> x;
    }
    auto fresh = [&]() { return std::make_unique<VarState>(7, f.front(), f.back()); };
    auto cur = fresh();
    auto other = fresh();
    size_t flip = 0;
    auto next_other = [&]() {
        // the target of an assignment: empty or densely populated
        if (++flip % 2 == 0) {
            other = fresh();
        } else {
            other = std::make_unique<VarState>(3, 0, 3);
            other->set_literal(0, 5);
            other->set_literal(1, 5);
            other->set_literal(2, 5);
        }
    };
    std::string op;
    while (in >> op && op != "end") {
        size_t v = 0;
        int k = 0;
        if (op == "set") {
            in >> v >> k;
            cur->set_literal(f[v], k);
        } else if (op == "goa") {
            in >> v >> k;
            auto &l = cur->get_or_add_literal(f[v]);
            if (l == 0) {
                l = k;
            }
        } else if (op == "unset") {
            in >> v;
            cur->unset_literal(f[v]);
        } else if (op == "lower") {
            in >> v;
            cur->lower_bound(f[v]);
        } else if (op == "upper") {
            in >> v;
            cur->upper_bound(f[v]);
        } else if (op == "pushl") {
            in >> v;
            cur->push_lower(v);
        } else if (op == "pushu") {
            in >> v;
            cur->push_upper(v);
        } else if (op == "popl") {
            cur->pop_lower();
        } else if (op == "popu") {
            cur->pop_upper();
        } else if (op == "copy") {
            auto c = std::make_unique<VarState>(*cur);
            cur = std::move(c);
        } else if (op == "assign") {
            next_other();
            *other = *cur;
            std::swap(cur, other);
        } else if (op == "move") {
            next_other();
            if (flip % 4 < 2) {
                *other = std::move(*cur);
                std::swap(cur, other);
            } else {
                auto c = std::make_unique<VarState>(std::move(*cur));
                cur = std::move(c);
            }
        }
        std::cout << cur->var() << " " << cur->lower_bound() << " " << cur->upper_bound() << " " << cur->min_bound() << " "
                  << cur->max_bound() << " " << cur->is_assigned() << " |";
        for (level_t l = 1; l <= d; ++l) {
            std::cout << cur->pushed_lower(l) << cur->pushed_upper(l);
        }
        std::cout << " |";
        for (size_t i = 0; i + 1 < n; ++i) {
            if (cur->min_bound() <= f[i] && f[i] < cur->max_bound()) {
                auto g = cur->get_literal(f[i]);
                std::cout << " " << cur->has_literal(f[i]) << (g ? *g : 0);
            } else {
                std::cout << " .";
            }
        }
        std::cout << " |";
        auto point = [&](val_t x) {
            opt(cur->order_lit_lt(x), cur->lit_lt(x));
            opt(cur->order_lit_le(x), cur->lit_le(x));
            opt(cur->order_lit_gt(x), cur->lit_gt(x));
            opt(cur->order_lit_ge(x), cur->lit_ge(x));
            if (cur->lit_prev(x) != (cur->lit_lt(x) != 0 ? cur->lit_lt(x) : -TRUE_LIT) ||
                cur->lit_succ(x) != (cur->lit_gt(x) != 0 ? cur->lit_gt(x) : TRUE_LIT)) {
                std::cout << "?";
            }
            std::cout << ";";
        };
        point(f[0] - 1);
        for (size_t i = 0; i < n; ++i) {
            point(f[i]);
            if (i + 1 < n && f[i] + 1 < f[i + 1]) {
                point(f[i] + 1);
                point(f[i + 1] - 1);
            }
        }
        point(f[n - 1] + 1);
        std::cout << " |";
        cur->with([&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) {
            for (auto it = ib; it != ie; inc(it)) {
                std::cout << " " << get_lit(it) << "@" << get_val(it);
            }
        });
        // the literals below the largest and above the smallest value
        cur->with_lt(f[n - 1], [&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) -> int {
            for (auto it = ib; it != ie; inc(it)) {
                std::cout << " " << get_lit(it) << "<" << get_val(it);
            }
            return 0;
        });
        cur->with_ge(f[0], [&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) -> int {
            for (auto it = ib; it != ie; inc(it)) {
                std::cout << " " << get_lit(it) << ">" << get_val(it);
            }
            return 0;
        });
        std::cout << "\n";
    }
}

} // namespace

int main() {
    std::ios::sync_with_stdio(false);
    std::string kind;
    while (std::cin >> kind) {
        std::cout << "#" << std::endl;
        if (kind == "val") {
            sets<val_t>(std::cin);
        } else if (kind == "sum") {
            sets<sum_t>(std::cin);
        } else if (kind == "uvec") {
            uvec(std::cin);
        } else if (kind == "var") {
            var(std::cin);
        }
        std::cout << std::flush;
    }
    return 0;
}
