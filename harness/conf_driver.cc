// Configuration driver: executes sequences of option settings, through
// clingcon_configure or through clingo's command line, and records results and
// the resulting configuration, one JSON event per line.  Every session runs in a
// forked child.
//
//   S id            start of session        E           end of session
//   C key value     clingcon_configure      K           clingcon_validate_options
//   A arg           command line argument (whole session runs in the application)
//   R n             register with n threads, solve, look at each solver
//   H               rewrite a constraint and see whether it is shifted
//
// With BLIND nothing of the implementation is looked at.
#include <clingcon.h>
#include <clingo.hh>
#ifndef BLIND
#include <clingcon/propagator.hh>
namespace Clingcon {
struct VerifAccess {
    static auto solvers(Propagator &p) -> std::vector<Solver> & { return p.solvers_; }
};
} // namespace Clingcon
#endif

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using Clingo::Detail::handle_error;

static bool g_capture = false;
static void *g_data = nullptr;
static bool g_decide = false;

extern "C" bool __real_clingo_control_register_propagator(clingo_control_t *, clingo_propagator_t const *, void *, bool);
extern "C" bool __wrap_clingo_control_register_propagator(clingo_control_t *ctl, clingo_propagator_t const *prp, void *data, bool seq) {
    if (g_capture) {
        g_data = data;
        g_decide = prp->decide != nullptr;
    }
    return __real_clingo_control_register_propagator(ctl, prp, data, seq);
}

namespace {

FILE *out = nullptr;
std::string sid;

void emit(std::string const &body) {
    std::fprintf(out, "{\"s\":\"%s\",%s}\n", sid.c_str(), body.c_str());
    std::fflush(out);
}
std::string q(std::string const &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += c;
    }
    return r + "\"";
}

#ifndef BLIND
std::string b(bool x) { return x ? "\"1\"" : "\"0\""; }
template <class T> std::string n(T x) { return "\"" + std::to_string(x) + "\""; }
std::string dump(Clingcon::SolverConfig const &c) {
    return "{\"order-heuristic\":" + b(c.heuristic != Clingcon::Heuristic::None) + ",\"sign-value\":" + n(c.sign_value) +
           ",\"refine-reasons\":" + b(c.refine_reasons) + ",\"refine-introduce\":" + b(c.refine_introduce) +
           ",\"propagate-chain\":" + b(c.propagate_chain) + ",\"split-all\":" + b(c.split_all) + "}";
}
std::string dump() {
    auto &c = static_cast<Clingcon::Propagator *>(g_data)->config();
    char pb[512];
    std::snprintf(pb, sizeof(pb), "%.6f", c.weight_constraint_ratio);
    std::string r = "{\"sort-constraints\":" + b(c.sort_constraints) + ",\"literals-only\":" + b(c.literals_only) +
                    ",\"add-order-clauses\":" + b(c.add_order_clauses) + ",\"check-solution\":" + b(c.check_solution) +
                    ",\"check-state\":" + b(c.check_state) + ",\"translate-clauses\":" + n(c.clause_limit) +
                    ",\"total\":" + n(c.clause_limit_total) + ",\"translate-distinct\":" + n(c.distinct_limit) +
                    ",\"translate-opt\":" + n(c.translate_minimize) + ",\"translate-pb\":\"" + pb + "\",\"min-int\":" + n(c.min_int) +
                    ",\"max-int\":" + n(c.max_int) + "}";
    std::string t;
    for (auto &x : c.solver_configs) {
        t += (t.empty() ? "" : ",") + dump(x);
    }
    return "\"glob\":" + r + ",\"def\":" + dump(c.default_solver_config) + ",\"thr\":[" + t + "]";
}
#endif
std::string state() {
#ifndef BLIND
    return "," + dump();
#else
    return "";
#endif
}

bool add(clingo_ast_t *ast, void *data) {
    *static_cast<std::string *>(data) += Clingo::AST::Node(ast).to_string() + "\n";
    return true;
}

void shift(clingcon_theory_t *theory) {
    std::string r;
    Clingo::AST::parse_string(":- &sum{ x } > 1.", [&](Clingo::AST::Node node) {
        auto *p = node.to_c();
        clingo_ast_acquire(p);
        handle_error(clingcon_rewrite_ast(
            theory,
            p,
            [](clingo_ast_t *ast, void *data) {
                clingo_ast_acquire(ast);
                return add(ast, data);
            },
            &r));
    });
    // shifted constraints have an atom in the head
    emit("\"e\":\"shift\",\"text\":" + q(r.find(":-") == std::string::npos || r.find(":- ") > r.find("&") ? "1" : "0"));
}

void solve(clingcon_theory_t *theory, int threads) {
    std::string t = std::to_string(threads);
    Clingo::Control ctl{{"-t", t.c_str()}};
    handle_error(clingcon_register(theory, ctl.to_c()));
    std::string rec = std::string(",\"decide\":") + (g_decide ? "\"1\"" : "\"0\"");
    Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &builder) {
        Clingo::AST::parse_string("{a}. &sum{ x } <= 1 :- a. &dom{ 0..3 } = x.", [&](Clingo::AST::Node node) {
            auto *p = node.to_c();
            clingo_ast_acquire(p);
            handle_error(clingcon_rewrite_ast(
                theory,
                p,
                [](clingo_ast_t *ast, void *data) { return clingo_program_builder_add(static_cast<clingo_program_builder_t *>(data), ast); },
                builder.to_c()));
        });
    });
    ctl.ground({{"base", {}}});
    handle_error(clingcon_prepare(theory, ctl.to_c()));
    auto res = ctl.solve(Clingo::SymbolicLiteralSpan{}, nullptr, false, false).get();
    rec += std::string(",\"sat\":") + (res.is_satisfiable() ? "\"1\"" : "\"0\"");
#ifndef BLIND
    std::string s;
    for (auto &x : Clingcon::VerifAccess::solvers(*static_cast<Clingcon::Propagator *>(g_data))) {
        s += (s.empty() ? "" : ",") + dump(x.config());
    }
    rec += ",\"solvers\":[" + s + "]";
#endif
    emit("\"e\":\"solve\",\"n\":" + t + rec);
}

// The address of the configuration is learned by registering with another control.
void peek(clingcon_theory_t *theory, Clingo::Control &scratch) {
    g_capture = true;
    handle_error(clingcon_register(theory, scratch.to_c()));
    g_decide = false;
}

struct App : Clingo::Application {
    clingcon_theory_t *theory{nullptr};
    bool shifted{false};
    int threads{0};
    bool reached{false};
    char const *program_name() const noexcept override { return "conf"; }
    void register_options(Clingo::ClingoOptions &options) override {
        handle_error(clingcon_register_options(theory, options.to_c()));
    }
    void validate_options() override { handle_error(clingcon_validate_options(theory)); }
    void main(Clingo::Control &, Clingo::StringSpan) override {
        reached = true;
        emit("\"e\":\"cli\",\"ok\":\"1\"" + state());
        if (shifted) {
            shift(theory);
        }
        if (threads > 0) {
            solve(theory, threads);
        }
    }
};

std::vector<std::string> split(std::string const &s) {
    std::vector<std::string> r(1);
    for (char c : s) {
        if (c == '\t') {
            r.emplace_back();
        } else {
            r.back() += c;
        }
    }
    return r;
}

void run(std::vector<std::vector<std::string>> const &ops) {
    clingcon_theory_t *theory = nullptr;
    handle_error(clingcon_create(&theory));
    Clingo::Control scratch;
    peek(theory, scratch);
    emit("\"e\":\"init\"" + state());
    std::vector<std::string> args;
    bool cli = false;
    App app;
    app.theory = theory;
    for (auto const &op : ops) {
        if (op[0] == "A" || op[0] == "L") {
            cli = true;
            if (op[0] == "A") {
                args.emplace_back(op[1]);
            }
        }
    }
    for (auto const &op : ops) {
        if (op[0] == "C") {
            bool ok = clingcon_configure(theory, op[1].c_str(), op.size() > 2 ? op[2].c_str() : "");
            emit("\"e\":\"conf\",\"ok\":" + std::string(ok ? "\"1\"" : "\"0\"") + state());
        } else if (op[0] == "K") {
            bool ok = clingcon_validate_options(theory);
            emit("\"e\":\"validate\",\"ok\":" + std::string(ok ? "\"1\"" : "\"0\"") + state());
        } else if (op[0] == "H") {
            if (cli) {
                app.shifted = true;
            } else {
                shift(theory);
            }
        } else if (op[0] == "R") {
            if (cli) {
                app.threads = std::stoi(op[1]);
            } else {
                solve(theory, std::stoi(op[1]));
            }
        }
    }
    if (cli) {
        std::vector<char const *> argv;
        for (auto &x : args) {
            argv.emplace_back(x.c_str());
        }
        auto code = Clingo::clingo_main(app, {argv.data(), argv.size()});
        static_cast<void>(code);
        if (!app.reached) {
            emit("\"e\":\"cli\",\"ok\":\"0\"");
        }
    }
    emit("\"e\":\"end\"");
}

} // namespace

int main() {
    out = fdopen(dup(1), "w");
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    std::string line;
    std::vector<std::vector<std::string>> ops;
    while (std::getline(std::cin, line)) {
        auto f = split(line);
        if (f[0] == "S") {
            sid = f[1];
            ops.clear();
        } else if (f[0] == "E") {
            auto pid = fork();
            if (pid == 0) {
                try {
                    alarm(20);
                    run(ops);
                } catch (std::exception const &e) {
                    emit("\"e\":\"error\",\"what\":" + q(e.what()));
                }
                std::fflush(out);
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (st != 0) {
                emit("\"e\":\"crash\",\"status\":" + std::to_string(st));
            }
        } else {
            ops.emplace_back(f);
        }
    }
}
