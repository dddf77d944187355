// Session driver: executes scripted sessions against clingcon's public C API
// (clingcon.h) on top of clingo and records one JSON event per line.
//
// The script is line based; fields are separated by tabs; text is
// percent-encoded.  One session starts with "S <id>" and ends with "E".  Every
// session runs in a forked child with a time limit, so that a crash or a hang of
// one session is recorded as an event and does not affect the others.
//
//   S id          start of session            E             end of session
//   O key value   clingcon_configure          A arg         clingo argument
//   I             create control, register    P text        parse, rewrite, add
//   W text        like P, but parse only one string per call (file order kept)
//   G n;a,b       ground part n(a,b)          N             clingcon_prepare
//   X sym v       assign external (0,1,2=free) K path value clingo configuration
//   V assumptions solve (comma separated literals, '!' prefix for false)
//   L sym         lookup symbol               D             dump assignment (no solve)
//   T text        rewrite only and print the resulting statements
//   M n           stop the search after n models (for following solves)
#include <clingcon.h>
#include <clingo.hh>

#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#ifdef SPY
#include "spy.hh"
#endif

namespace {

using Clingo::Detail::handle_error;

std::string esc(std::string const &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20) {
            char b[8];
            std::snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}
std::string q(std::string const &s) { return "\"" + esc(s) + "\""; }

std::string unq(std::string const &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%' && i + 2 < s.size()) {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16));
            i += 2;
        } else {
            r += s[i];
        }
    }
    return r;
}

std::vector<std::string> split(std::string const &s, char c) {
    std::vector<std::string> r;
    std::string cur;
    for (char d : s) {
        if (d == c) {
            r.push_back(cur);
            cur.clear();
        } else {
            cur += d;
        }
    }
    r.push_back(cur);
    return r;
}

using Lines = std::vector<std::vector<std::string>>;

struct Session {
    std::string id;
    Lines lines;
};

class Run : public Clingo::SolveEventHandler {
  public:
    Run(Session const &s, FILE *out) : s_{s}, out_{out} {}
    ~Run() override {
        ctl_.reset();
        if (theory_ != nullptr) {
            clingcon_destroy(theory_);
        }
    }

    void emit(std::string const &ev, std::string const &body) {
        std::string line = "{\"s\":" + q(s_.id) + ",\"n\":" + std::to_string(n_) + ",\"e\":" + q(ev) +
                           (body.empty() ? "" : ",") + body + "}\n";
        std::fwrite(line.data(), 1, line.size(), out_);
        std::fflush(out_);
        ++n_;
    }

    static bool add_cb(clingo_ast_t *ast, void *data) {
        return clingo_program_builder_add(static_cast<clingo_program_builder_t *>(data), ast);
    }
    static bool print_cb(clingo_ast_t *ast, void *data) {
        try {
            clingo_ast_acquire(ast);
            Clingo::AST::Node n{ast};
            std::ostringstream oss;
            oss << n;
            static_cast<std::vector<std::string> *>(data)->push_back(oss.str());
            return true;
        } catch (...) {
            return false;
        }
    }

    // The assignment through the C API, on the given thread.
    std::string assignment(uint32_t thread, bool values) {
        std::string r = "[";
        size_t idx = 0;
        size_t guard = 0;
        bool comma = false;
        clingcon_assignment_begin(theory_, thread, &idx);
        while (clingcon_assignment_next(theory_, thread, &idx)) {
            if (++guard > 100000) {
                break;
            }
            if (!clingcon_assignment_has_value(theory_, thread, idx)) {
                r += std::string(comma ? "," : "") + "[\"?hole\",0,0]";
                comma = true;
                continue;
            }
            Clingo::Symbol sym{clingcon_get_symbol(theory_, idx)};
            size_t back = 0;
            bool found = clingcon_lookup_symbol(theory_, sym.to_c(), &back);
            clingcon_value_t v{};
            if (values) {
                clingcon_assignment_get_value(theory_, thread, idx, &v);
            }
            r += std::string(comma ? "," : "") + "[" + q(sym.to_string()) + "," + std::to_string(v.int_number) + "," +
                 std::to_string(idx) + "]";
            if (!found || back != idx || v.type != clingcon_value_type_int) {
                r += ",[\"?lookup\",0,0]";
            }
            comma = true;
        }
        return r + "]";
    }

    bool on_model(Clingo::Model &m) override {
#ifdef SPY
        Spy::model(m.thread_id());
#endif
        handle_error(clingcon_on_model(theory_, m.to_c()));
        return yield_ || record(m);
    }

    bool record(Clingo::Model const &m) {
        std::string atoms = "[";
        bool comma = false;
        for (auto &sym : m.symbols(Clingo::ShowType::Shown)) {
            atoms += std::string(comma ? "," : "") + q(sym.to_string());
            comma = true;
        }
        atoms += "]";
        std::string csp = "[";
        std::string cost = "[]";
        comma = false;
        for (auto &sym : m.symbols(Clingo::ShowType::Theory)) {
            if (sym.match("__csp", 2)) {
                csp += std::string(comma ? "," : "") + "[" + q(sym.arguments()[0].to_string()) + "," +
                       sym.arguments()[1].to_string() + "]";
                comma = true;
            } else if (sym.match("__csp_cost", 1)) {
                auto a = sym.arguments()[0];
                cost = a.type() == Clingo::SymbolType::String ? "[" + q(a.string()) + "]" : "[\"?\"]";
            }
        }
        csp += "]";
        std::string opt = "[";
        comma = false;
        for (auto c : m.cost()) {
            opt += std::string(comma ? "," : "") + std::to_string(c);
            comma = true;
        }
        opt += "]";
        models_ += std::string(models_.empty() ? "" : ",") + "{\"atoms\":" + atoms + ",\"csp\":" + csp +
                   ",\"api\":" + assignment(m.thread_id(), true) + ",\"cost\":" + cost + ",\"opt\":" + opt +
                   ",\"thr\":" + std::to_string(m.thread_id()) + "}";
        ++nmodels_;
        if (nmodels_ >= 20000) {
            overflow_ = true;
            return false;
        }
        return max_models_ == 0 || nmodels_ < max_models_;
    }

    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        handle_error(clingcon_on_statistics(theory_, step.to_c(), accu.to_c()));
    }

    static void stat_rec(Clingo::Statistics st, std::string const &path, std::string &out, int depth) {
        if (depth > 6) {
            return;
        }
        switch (st.type()) {
            case Clingo::StatisticsType::Value: {
                char buf[64];
                std::snprintf(buf, sizeof(buf), "%.0f", st.value());
                out += std::string(out.empty() ? "" : ",") + "[" + q(path) + "," + buf + "]";
                break;
            }
            case Clingo::StatisticsType::Map: {
                for (auto const *k : st.keys()) {
                    stat_rec(st[k], path.empty() ? k : path + "/" + k, out, depth + 1);
                }
                break;
            }
            case Clingo::StatisticsType::Array: {
                for (size_t i = 0; i < st.size(); ++i) {
                    stat_rec(st[i], path + "/" + std::to_string(i), out, depth + 1);
                }
                break;
            }
            default:
                break;
        }
    }

    void stats() {
        std::string step, accu;
        auto st = ctl_->statistics();
        if (st.has_subkey("user_step") && st["user_step"].has_subkey("Clingcon")) {
            stat_rec(st["user_step"]["Clingcon"], "", step, 0);
        }
        if (st.has_subkey("user_accu") && st["user_accu"].has_subkey("Clingcon")) {
            stat_rec(st["user_accu"]["Clingcon"], "", accu, 0);
        }
        std::string at;
#ifdef SPY
        at = Spy::counts();
#endif
        emit("stats", "\"step\":[" + step + "],\"accu\":[" + accu + "]" + at);
    }

    void parse(std::string const &text) {
        Clingo::AST::with_builder(*ctl_, [&](Clingo::AST::ProgramBuilder &b) {
            auto *cb = b.to_c();
            Clingo::AST::parse_string(
                text.c_str(),
                [&](Clingo::AST::Node const &n) { handle_error(clingcon_rewrite_ast(theory_, n.to_c(), add_cb, cb)); },
                [&](Clingo::WarningCode, char const *msg) { log(msg); }, 20);
        });
    }

    void log(char const *msg) {
        if (log_.size() < 4000) {
            log_ += msg;
            log_ += "\n";
        }
    }

    void ensure_theory() {
        if (theory_ == nullptr) {
            handle_error(clingcon_create(&theory_));
        }
    }

    bool exec(std::vector<std::string> const &l) {
        auto const &op = l[0];
        if (op == "O") {
            ensure_theory();
            if (!clingcon_configure(theory_, l[1].c_str(), unq(l[2]).c_str())) {
                throw std::runtime_error(std::string("configure: ") +
                                         (clingo_error_message() != nullptr ? clingo_error_message() : ""));
            }
        } else if (op == "A") {
            args_.push_back(unq(l[1]));
        } else if (op == "I") {
            ensure_theory();
            std::vector<char const *> a;
            for (auto &s : args_) {
                a.push_back(s.c_str());
            }
            ctl_ = std::make_unique<Clingo::Control>(
                Clingo::StringSpan{a.data(), a.size()}, [this](Clingo::WarningCode, char const *msg) { log(msg); }, 20);
#ifdef SPY
            Spy::g.out = out_;
            Spy::g.id = s_.id;
            Spy::g.limit = std::getenv("SPY_LIMIT") != nullptr ? std::stoul(std::getenv("SPY_LIMIT")) : 1000;
#endif
            handle_error(clingcon_register(theory_, ctl_->to_c()));
            emit("init", "");
        } else if (op == "P") {
            parse(unq(l[1]));
            emit("add", "");
        } else if (op == "T") {
            ensure_theory();
            // statements before and after rewriting
            Clingo::AST::parse_string(unq(l[1]).c_str(), [&](Clingo::AST::Node const &n) {
                std::vector<std::string> res;
                std::ostringstream oss;
                oss << n;
                handle_error(clingcon_rewrite_ast(theory_, n.to_c(), print_cb, &res));
                std::string b;
                for (auto &s : res) {
                    b += (b.empty() ? "" : ",") + q(s);
                }
                emit("rewrite", "\"stm\":" + q(oss.str()) + ",\"out\":[" + b + "]");
            });
        } else if (op == "G") {
            auto parts = split(l[1], ';');
            Clingo::SymbolVector syms;
            if (parts.size() > 1 && !parts[1].empty()) {
                for (auto &p : split(parts[1], ',')) {
                    syms.push_back(Clingo::parse_term(p.c_str()));
                }
            }
            ctl_->ground({Clingo::Part{parts[0].c_str(), {syms.data(), syms.size()}}});
            emit("ground", "\"part\":" + q(l[1]));
        } else if (op == "N") {
            handle_error(clingcon_prepare(theory_, ctl_->to_c()));
            emit("prepare", "\"models\":" + q(ctl_->configuration()["solve"]["models"].value()));
        } else if (op == "X") {
            auto v = std::stoi(l[2]);
            auto sym = Clingo::parse_term(l[1].c_str());
            if (v == 3) {
                ctl_->release_external(sym);
            } else {
                ctl_->assign_external(sym, v == 0   ? Clingo::TruthValue::False
                                           : v == 1 ? Clingo::TruthValue::True
                                                    : Clingo::TruthValue::Free);
            }
            emit("external", "\"sym\":" + q(l[1]) + ",\"val\":" + std::to_string(v));
        } else if (op == "K") {
            auto conf = ctl_->configuration();
            for (auto &k : split(l[1], '.')) {
                conf = conf[k.c_str()];
            }
            conf = unq(l[2]).c_str();
            emit("config", "");
        } else if (op == "M") {
            max_models_ = std::stoul(l[1]);
        } else if (op == "L") {
            size_t idx = 0;
            auto sym = Clingo::parse_term(unq(l[1]).c_str());
            bool found = clingcon_lookup_symbol(theory_, sym.to_c(), &idx);
            std::string name;
            if (found) {
                name = Clingo::Symbol{clingcon_get_symbol(theory_, idx)}.to_string();
            }
            emit("lookup", "\"sym\":" + q(unq(l[1])) + ",\"found\":" + (found ? "true" : "false") +
                               ",\"idx\":" + std::to_string(idx) + ",\"back\":" + q(name));
        } else if (op == "D") {
            emit("dump", "\"api\":" + assignment(0, false));
        } else if (op == "Z") {
            stats();
        } else if (op == "V") {
            // Note: clingo ignores assumptions over atoms that have been
            // simplified away.
            std::vector<Clingo::literal_t> ass;
            if (l.size() > 1 && !l[1].empty()) {
                for (auto &a : split(l[1], ',')) {
                    bool neg = a[0] == '!';
                    auto atoms = ctl_->symbolic_atoms();
                    auto it = atoms.find(Clingo::parse_term(a.substr(neg ? 1 : 0).c_str()));
                    Clingo::literal_t lit = it != atoms.end() ? it->literal() : 0;
                    if (lit == 0 && !neg) {
                        ctl_->with_backend([&](Clingo::Backend &b) { lit = static_cast<Clingo::literal_t>(b.add_atom()); });
                    }
                    if (lit != 0) {
                        ass.emplace_back(neg ? -lit : lit);
                    }
                }
            }
            models_.clear();
            nmodels_ = 0;
            auto mode = l.size() > 2 ? l[2] : "";
            yield_ = mode.find('y') != std::string::npos;
            auto hnd = ctl_->solve(Clingo::LiteralSpan{ass.data(), ass.size()}, this,
                                   mode.find('a') != std::string::npos, yield_);
            if (yield_) {
                // models are recorded while the search pauses
                for (auto const *m = &hnd.model(); *m; m = &hnd.next()) {
                    if (!record(*m)) {
                        hnd.cancel();
                        break;
                    }
                }
            } else if (mode == "a") {
                while (!hnd.wait(0.01)) {
                }
            }
            auto res = hnd.get();
            emit("solve", "\"models\":[" + models_ + "],\"sat\":" +
                              (res.is_satisfiable()     ? "\"sat\""
                               : res.is_unsatisfiable() ? "\"unsat\""
                                                        : "\"unknown\"") +
                              ",\"exhausted\":" + (res.is_exhausted() ? "true" : "false") +
                              ",\"overflow\":" + (overflow_ ? "true" : "false"));
        } else {
            throw std::logic_error("unknown command: " + op);
        }
        return true;
    }

    void run() {
        std::string op = "?";
        try {
            for (auto &l : s_.lines) {
                op = l[0];
                exec(l);
            }
            emit("end", "\"log\":" + q(log_));
        } catch (std::exception const &e) {
            emit("error", "\"op\":" + q(op) + ",\"msg\":" + q(e.what()) + ",\"log\":" + q(log_));
        } catch (...) {
            emit("error", "\"op\":" + q(op) + ",\"msg\":\"?\",\"log\":" + q(log_));
        }
    }

  private:
    Session const &s_;
    FILE *out_;
    clingcon_theory_t *theory_{nullptr};
    std::unique_ptr<Clingo::Control> ctl_;
    std::vector<std::string> args_;
    std::string models_;
    std::string log_;
    size_t nmodels_{0};
    size_t max_models_{0};
    size_t n_{0};
    bool overflow_{false};
    bool yield_{false};
};

} // namespace

int main(int argc, char **argv) {
    if (argc < 4) {
        std::cerr << "usage: session_driver SCRIPT OUT SECONDS [THREADS_GUARD]\n";
        return 2;
    }
    unsigned limit = std::stoul(argv[3]);
    FILE *in = std::fopen(argv[1], "r");
    FILE *out = std::fopen(argv[2], "a");
    if (in == nullptr || out == nullptr) {
        return 2;
    }
    std::vector<Session> sessions;
    {
        std::string text;
        char buf[65536];
        size_t n = 0;
        while ((n = std::fread(buf, 1, sizeof(buf), in)) > 0) {
            text.append(buf, n);
        }
        for (auto &line : split(text, '\n')) {
            auto f = split(line, '\t');
            if (f[0] == "S") {
                sessions.push_back({f[1], {}});
            } else if (!f[0].empty() && f[0] != "E") {
                sessions.back().lines.push_back(f);
            }
        }
        std::fclose(in);
    }
    int timeouts = 0;
    for (auto &s : sessions) {
        if (timeouts >= 2) {
            break;
        }
        std::fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(limit);
            rlimit core{0, 0};
            setrlimit(RLIMIT_CORE, &core);
            rlimit mem{6UL << 30, 6UL << 30};
            setrlimit(RLIMIT_AS, &mem);
            {
                Run r{s, out};
                r.run();
            }
            std::fflush(out);
            _exit(0);
        }
        int st = 0;
        if (pid < 0 || waitpid(pid, &st, 0) < 0) {
            return 2;
        }
        if (WIFSIGNALED(st)) {
            timeouts += WTERMSIG(st) == SIGALRM ? 1 : 0;
            std::fprintf(out, "{\"s\":%s,\"n\":-1,\"e\":\"%s\",\"sig\":%d}\n", q(s.id).c_str(),
                         WTERMSIG(st) == SIGALRM ? "timeout" : "crash", WTERMSIG(st));
        } else if (WEXITSTATUS(st) != 0) {
            std::fprintf(out, "{\"s\":%s,\"n\":-1,\"e\":\"crash\",\"sig\":0}\n", q(s.id).c_str());
        }
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
