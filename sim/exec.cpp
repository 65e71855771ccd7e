#include "exec.hpp"
#include <pybind11/embed.h>
#include "Interpreter/include/Interpreter.hpp"
#include "Narsese/Parser/NarseseParser.h"
#include "Narsese/include/Narsese.h"
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

// The counter of inputs is only advanced if it is a variable of this name.
struct sim_none {};
namespace sim_fallback { static sim_none _input_id; }
namespace GLOBAL { using namespace sim_fallback; }

using namespace model;
using gen::unescape;
namespace py = pybind11;
using TERM::pTerm;
using TERM::Term;
using TERM::Terms;
using TERM::pTerms;
using TASK::pTask;
using SENTENCE::pSentence;
using INTERPRETER::Interpreter;
using NARSESEPARSER::NarseseParser;
using EVIDENCE::Base;
using Connector_ = CONNECTOR::Connector;
using Copula_ = COPULA::Copula;

extern "C" PyObject *PyInit_narsese();

static_assert((int)CONNECTOR::ExtensionalImage == EXTIMG && (int)CONNECTOR::Conjunction == CONJ && (int)CONNECTOR::ExtensionalSet == EXTSET, "");
static_assert((int)COPULA::ConcurrentEquivalence == CEQV && (int)COPULA::Inheritance == INH, "");

namespace
{
    typedef std::vector<std::string> Strs;
    std::set<std::string> TAGS;
    Counters *CNT;
    std::string STEP;

    void viol(std::initializer_list<const char *> tags, const std::string &text)
    {
        Violation v;
        v.text = text;
        v.step = STEP;
        bool wanted = TAGS.count("all") > 0;
        for (auto t : tags) { v.tags.insert(t); wanted |= TAGS.count(t) > 0; }
        if (wanted) throw Found(v);
        CNT->add("ignored_" + *v.tags.begin());
    }

    // ---- calls into the code under test ----
    struct Outcome
    {
        bool ok = false, oom = false;
        std::string what;
    };
    bool oom_armed = false;
    template <class F>
    Outcome sut(F f)
    {
        Outcome o;
        struct Disarm { ~Disarm() { if (oom_armed) arena::fail_new(-1, false); oom_armed = false; } } disarm;
        char what[300];
        what[0] = 0;
        try
        {
            arena::Scope s;
            f();
            o.ok = true;
        }
        catch (Found &) { throw; }
        catch (py::error_already_set &e) { arena::Out z; snprintf(what, sizeof what, "python: %s", e.what()); }
        catch (std::bad_alloc &e) { snprintf(what, sizeof what, "bad_alloc"); }
        catch (std::exception &e) { snprintf(what, sizeof what, "%s", e.what()); }
        catch (...) { snprintf(what, sizeof what, "unknown exception"); }
        o.what = what;
        o.oom = oom_armed && arena::fail_fired();
        if (o.oom) CNT->add("fault_alloc_failed");
        return o;
    }
    std::string take(const std::string &s) { return std::string(s.data(), s.size()); }

    // ---- objects under test, with their models ----
    struct StampModel
    {
        bool eternal = true;
        long occ = 0, created = 0;
        std::set<size_t> ids;
    };
    struct Handle
    {
        char kind = 0; // t task, s sentence, e term, b bag, 2 private atom, p python, o orphan
        pTask task;
        pSentence sent;
        pTerm term;
        std::vector<pTerm> bag;
        std::vector<T> bagm;
        std::vector<int> bagg;
        PyObject *obj = nullptr;
        char pk = 0;
        std::vector<T> rest; // python iterator: what is still to come
        std::vector<std::pair<std::string, int>> unused;
        T t;
        Task m;
        bool sentence_truth = true;
        int truth_of = 0; // python sentence: the truth object it was given
        std::shared_ptr<StampModel> sm;
        int group = 0;
    };
    std::map<int, std::unique_ptr<Handle>> H;
    NarseseParser *parsers[4];
    Interpreter *interp2;
    int groups;
    std::set<std::string> maybe;      // names a failed allocation may have left behind
    std::multiset<std::string> cycles; // names held by unreachable Python cycles
    std::vector<T> cycle_terms;
    std::set<size_t> ids_seen;
    std::map<std::string, Term *> anon; // "@id" -> atom
    std::map<std::string, std::string> reference; // raw line -> outcome in a fresh process
    unsigned long clock_;
    int last_eq_pairs;
    PyObject *pymod;

    Interpreter &I() { return INTERPRETER::interpreter; }

    // ---- structure of a real term, from its public fields ----
    std::string atom_name(Term &t)
    {
        for (auto &[k, p] : anon) if (p == &t) return k;
        std::string r;
        { arena::Scope s; std::string x = I().interpret(t); arena::Out o; r = take(x); }
        return r;
    }
    T extract(Term &t, int depth = 0)
    {
        if (depth > 2000) viol({"struct", "alive"}, "a term contains itself");
        if (t.is_statement())
        {
            if (!t.subject.get() || !t.predicate.get()) { viol({"struct", "alive"}, "a statement lacks its subject or predicate"); return atom("?broken"); }
            return stmt(extract(*t.subject, depth + 1), (int)t.copula, extract(*t.predicate, depth + 1));
        }
        if (t.is_compound())
        {
            if (!t.terms) { viol({"struct", "alive"}, "a compound lacks its components"); return atom("?broken"); }
            std::vector<T> a;
            bool com = t.terms->_is_commutative;
            if (com != con_commutative((int)t.connector)) viol({"struct"}, "the components of a compound with connector " + std::string(CON[(int)t.connector]) + " are kept in the wrong kind of container");
            if (com) { for (auto &x : t.terms->terms_unordered) a.push_back(extract(*x, depth + 1)); }
            else { for (auto &x : t.terms->terms_ordered) a.push_back(extract(*x, depth + 1)); }
            return cmpd((int)t.connector, a);
        }
        if (!t.is_atom()) { viol({"struct", "alive"}, "a term has no valid type"); return atom("?broken"); }
        if (t.is_var)
        {
            auto &v = t.is_ivar ? t._vars_independent : t.is_dvar ? t._vars_dependent : t._vars_query;
            if (v->indices.size() != 1) { viol({"struct", "vars"}, "a variable has " + std::to_string(v->indices.size()) + " indices"); return atom("?broken"); }
            return var(t.is_ivar ? '$' : t.is_dvar ? '#' : '?', "", *v->indices[0]);
        }
        if (t.is_interval) return ival(((INTERVAL::Interval &)t).interval);
        std::string n = atom_name(t);
        if (t.is_operation) { if (n.size() && n[0] == '^') n = n.substr(1); return op(n); }
        return atom(n);
    }
    std::string shape(const T &t)
    {
        if (t->k == ATOM || t->k == OP) return "o";
        std::string s(1, (char)('A' + t->k));
        if (t->c >= 0) s += std::to_string(t->c);
        std::vector<std::string> v;
        for (auto &x : t->a) v.push_back(shape(x));
        if (t->k == CMPD && con_commutative(t->c)) std::sort(v.begin(), v.end());
        for (auto &x : v) s += x;
        return s + ")";
    }
    std::string cut(const std::string &s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }

    // Variable bookkeeping of a term: what must be listed, collected from the leaves.
    void occurrences(Term &t, std::vector<int> &path, std::vector<std::pair<std::vector<int>, std::shared_ptr<int>>> out[3])
    {
        if (t.is_statement())
        {
            path.push_back(0); occurrences(*t.subject, path, out); path.back() = 1; occurrences(*t.predicate, path, out); path.pop_back();
        }
        else if (t.is_compound())
        {
            int i = 0;
            path.push_back(0);
            if (t.terms->_is_commutative) { for (auto &x : t.terms->terms_unordered) { path.back() = i++; occurrences(*x, path, out); } }
            else { for (auto &x : t.terms->terms_ordered) { path.back() = i++; occurrences(*x, path, out); } }
            path.pop_back();
        }
        else if (t.is_var)
        {
            int k = t.is_ivar ? 0 : t.is_dvar ? 1 : 2;
            auto &v = k == 0 ? t._vars_independent : k == 1 ? t._vars_dependent : t._vars_query;
            if (v->indices.size() == 1) out[k].push_back({path, v->indices[0]});
        }
    }
    void check_vars(Term &t, const std::string &key)
    {
        std::vector<std::pair<std::vector<int>, std::shared_ptr<int>>> occ[3];
        std::vector<int> path;
        occurrences(t, path, occ);
        INDEXVAR::pIndexVar iv[3] = {t._vars_independent, t._vars_dependent, t._vars_query};
        bool has[3] = {(bool)t.has_ivar, (bool)t.has_dvar, (bool)t.has_qvar};
        static const char *kn[] = {"independent", "dependent", "query"};
        for (int k = 0; k < 3; k++)
        {
            if (has[k] != !occ[k].empty()) viol({"vars"}, std::string("flag has_") + "idq"[k] + "var is wrong for " + cut(key));
            auto &x = *iv[k];
            if (x.indices.size() != occ[k].size() || x.positions.size() != occ[k].size())
            {
                viol({"vars"}, std::string("the index of ") + kn[k] + " variables lists " + std::to_string(x.indices.size()) + "/" + std::to_string(x.positions.size()) + " occurrences, the term has " + std::to_string(occ[k].size()) + ": " + cut(key));
                continue;
            }
            std::set<int> vals;
            for (size_t i = 0; i < occ[k].size(); i++)
            {
                if (x.positions[i] != occ[k][i].first) viol({"vars"}, std::string("a position in the index of ") + kn[k] + " variables is wrong: " + cut(key));
                if (x.indices[i] != occ[k][i].second) viol({"vars", "clone"}, std::string("the index of ") + kn[k] + " variables does not own the variable it lists: " + cut(key));
                if (*x.indices[i] != *occ[k][i].second) viol({"vars", "clone"}, std::string("the index of ") + kn[k] + " variables has a stale number: " + cut(key));
                vals.insert(*occ[k][i].second);
            }
            std::map<int, int> rank;
            for (int v : vals) rank.emplace(v, (int)rank.size());
            std::vector<int> norm;
            Outcome o = sut([&] { auto p = x.indices_normalized(); arena::Out z; norm.assign(p->begin(), p->end()); });
            if (!o.ok) viol({"vars"}, "indices_normalized failed: " + o.what);
            else
            {
                bool same = norm.size() == occ[k].size();
                for (size_t i = 0; same && i < norm.size(); i++) same = norm[i] == rank[*occ[k][i].second];
                if (!same) viol({"vars"}, std::string("the normalized index of ") + kn[k] + " variables is wrong: " + cut(key));
            }
        }
        if ((bool)t.has_var != (has[0] || has[1] || has[2])) viol({"vars"}, "flag has_var is wrong for " + cut(key));
    }
    void check_vars_deep(Term &t, const T &m, int depth = 0)
    {
        if (!t.has_var && !m->var && depth) return;
        check_vars(t, m->key);
        if (depth > 5) return;
        if (t.is_statement()) { check_vars_deep(*t.subject, m->a[0], depth + 1); check_vars_deep(*t.predicate, m->a[1], depth + 1); }
    }

    // A term is what its model says.
    bool same(Term *t, const T &m, std::initializer_list<const char *> tags, const std::string &who)
    {
        if (!t) { viol(tags, who + " is null"); return false; }
        T x = extract(*t);
        if (x->key == m->key) return true;
        std::vector<const char *> all(tags);
        std::string msg = who + " should be " + cut(m->key) + " but is " + cut(x->key);
        Violation v;
        v.text = msg; v.step = STEP;
        for (auto g : tags) v.tags.insert(g);
        if (shape(x) == shape(m)) v.tags.insert("identity");
        bool wanted = false;
        for (auto &g : v.tags) wanted |= TAGS.count(g) > 0;
        if (wanted) throw Found(v);
        CNT->add("ignored_struct");
        return false;
    }

    // ---- text ----
    std::string fmt2(double v, int d) { char b[40]; snprintf(b, sizeof b, "%.*f", d, v); return b; }
    std::string render_term(Term &t, bool colored, Outcome &o)
    {
        std::string r;
        o = sut([&] { std::string x = I().interpret(t, colored); arena::Out z; r = take(x); });
        return r;
    }
    std::string strip(const std::string &s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); i++)
        {
            if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[')
            {
                size_t j = i + 2;
                while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) j++;
                if (j < s.size() && s[j] == 'm') { i = j; continue; }
            }
            r += s[i];
        }
        return r;
    }
    T with_anon(const T &t) // "0x..." -> "@id"
    {
        if (t->k == ATOM || t->k == OP)
        {
            for (auto &[k, p] : anon) { char b[40]; snprintf(b, sizeof b, "0x%lx", (long)p); if (t->name == b) return atom(k); }
            return t;
        }
        if (t->a.empty()) return t;
        std::vector<T> a;
        for (auto &x : t->a) a.push_back(with_anon(x));
        return t->k == STMT ? stmt(a[0], t->c, a[1]) : cmpd(t->c, a);
    }
    void check_term_text(const std::string &text, const T &m, const char *who)
    {
        T x;
        try { x = with_anon(read_term(text, true)); }
        catch (Bad &e) { viol({"render"}, std::string(who) + " of " + cut(m->key) + " is not a term: " + cut(text) + " (" + e.what() + ")"); return; }
        if (x->key != m->key) viol({"render"}, std::string(who) + " of " + cut(m->key) + " reads " + cut(text));
    }
    const char *TENSE_TEXT[] = {":\\:", ":|:", ":/:", ""};
    int tense_now(const StampModel &s)
    {
        if (s.eternal) return 3;
        long now = (long)clock_, d = (long)CONFIG::temporal_duration;
        return s.occ >= now + d ? 2 : s.occ <= now - d ? 0 : 1;
    }
    // The numbers at the end of a text may be rounded either way where they lie between two texts.
    std::string settle(const std::string &got, const std::string &want, std::initializer_list<double> vals, int digits, char mark)
    {
        // both end in <mark>n;n<mark>
        auto split = [&](const std::string &s, std::string &head, std::vector<std::string> &v)
        {
            if (s.size() < 3 || s.back() != mark) return false;
            size_t b = s.rfind(mark, s.size() - 2);
            if (b == std::string::npos) return false;
            head = s.substr(0, b);
            std::string w;
            for (size_t i = b + 1; i < s.size(); i++) if (s[i] == ';' || s[i] == mark) { v.push_back(w); w.clear(); } else w += s[i];
            return v.size() == vals.size();
        };
        std::string h1, h2;
        std::vector<std::string> v1, v2;
        if (!split(got, h1, v1) || !split(want, h2, v2)) return want;
        double step = std::pow(10.0, -digits);
        size_t i = 0;
        std::string r = h2 + mark;
        for (double x : vals)
        {
            bool form = v1[i].size() == v2[i].size() && v1[i].find_first_not_of("0123456789.") == std::string::npos;
            r += form && std::fabs(atof(v1[i].c_str()) - x) < 0.5 * step + 0.06 * step + 1e-6 ? v1[i] : v2[i];
            r += ++i < vals.size() ? ';' : mark;
        }
        return r;
    }
    double unit(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
    // Durability and confidence lie inside (0, 1); a text that can be read shows them so, whatever rounding says.
    double inside(double x, double e) { return x < e ? e : x > 1 - e ? 1 - e : x; }
    double shown_c(const Handle &h) { return inside(h.m.t[1], 0.001); }
    double shown_b(const Handle &h, int i) { return i == 1 ? inside(h.m.b[1], 0.01) : unit(h.m.b[i]); }
    // the text of a sentence around the text of its term
    std::string sentence_tail(const Handle &h)
    {
        std::string s(1, h.m.punct);
        s += " ";
        if (!h.sm->eternal) s += std::string(TENSE_TEXT[tense_now(*h.sm)]) + " ";
        if ((h.m.punct == '.' || h.m.punct == '!') && h.sentence_truth) s += "%" + fmt2(h.m.t[0], 3) + ";" + fmt2(shown_c(h), 3) + "%";
        return s;
    }
    std::string budget_text(const std::string &got, const Handle &h)
    {
        double v[3];
        std::string b = "$";
        for (int i = 0; i < 3; i++) { v[i] = shown_b(h, i); b += fmt2(v[i], 2) + (i < 2 ? ";" : "$"); }
        return (got.size() > b.size() ? settle(got.substr(0, b.size()), b, {v[0], v[1], v[2]}, 2, '$') : b) + " ";
    }
    std::string mark(const T &t)
    {
        return t->k == VAR ? "Variable" : t->k == STMT ? "Statement" : t->k == CMPD ? "Compound" : "Term";
    }
    void check_text(Handle &h, bool colored)
    {
        Outcome o;
        Term *t = h.kind == 't' ? h.task->sentence->term.get() : h.kind == 's' ? h.sent->term.get() : h.term.get();
        std::string plain;
        bool armed = oom_armed;
        std::string ct;
        if (colored) { ct = render_term(*t, true, o); if (o.oom) return; if (!o.ok) viol({"render"}, "coloured rendering failed: " + o.what); }
        plain = render_term(*t, false, o);
        if (o.oom) return;
        if (armed) { Outcome o2; std::string again = render_term(*t, false, o2); if (again != plain) viol({"oom", "render"}, "a rendering made while memory was short differs: " + cut(plain)); }
        if (!o.ok) { viol({"render"}, "rendering " + cut(h.t->key) + " failed: " + o.what); return; }
        check_term_text(plain, h.t, "the text");
        if (colored)
        {
            if (strip(ct) != plain) viol({"render"}, "coloured text without its codes reads " + cut(strip(ct)) + ", plain text " + cut(plain));
            if (ct == plain) viol({"render"}, "coloured text has no colour: " + cut(plain));
        }
        {
            const pTerm &p = h.kind == 't' ? h.task->sentence->term : h.kind == 's' ? h.sent->term : h.term;
            std::string r1, r2, want = "<" + mark(h.t) + ": " + plain + ">";
            char at[60];
            snprintf(at, sizeof at, "<%s at %lx>", mark(h.t).c_str(), (unsigned long)p.get());
            o = sut([&] { std::string x = p.__repr__(), y = p.__repr__(&I()); arena::Out z; r1 = take(x); r2 = take(y); });
            if (!o.ok || r2 != want || (r1 != want && r1 != at)) viol({"render"}, "a term that should be shown as " + cut(want) + " is shown as " + cut(r2) + " and " + cut(r1) + " " + o.what);
        }
        if (h.kind == 'e') return;
        auto &sent = h.kind == 't' ? *h.task->sentence : *h.sent;
        std::string want = plain + sentence_tail(h), got, gotc;
        o = sut([&] { std::string x = I().interpret(sent); arena::Out z; got = take(x); });
        if (!o.ok) viol({"render", "clock"}, "rendering a sentence failed: " + o.what);
        else if (h.m.punct == '.' || h.m.punct == '!') if (h.sentence_truth) want = settle(got, want, {h.m.t[0], shown_c(h)}, 3, '%');
        if (o.ok && got != want)
        {
            std::string nt = want, ng = got;
            bool tense_only = false;
            for (auto &x : TENSE_TEXT) for (auto &y : TENSE_TEXT) if (*x && *y && x != y) { std::string w = want; size_t p = w.rfind(std::string(" ") + x + " "); if (p != std::string::npos) { w.replace(p + 1, 3, y); tense_only |= w == got; } }
            if (tense_only) viol({"clock", "render"}, "at time " + std::to_string(clock_) + " a sentence stamped " + std::to_string(h.sm->occ) + " (duration " + std::to_string(CONFIG::temporal_duration) + ") is shown as " + cut(got));
            else viol({"render"}, "sentence should read " + cut(want) + " but reads " + cut(got));
        }
        if (colored)
        {
            o = sut([&] { std::string x = I().interpret(sent, true); arena::Out z; gotc = take(x); });
            if (!o.ok || strip(gotc) != want) viol({"render", "clock"}, "coloured sentence reads " + cut(strip(gotc)) + " instead of " + cut(want));
        }
        {
            const pSentence &p = h.kind == 't' ? h.task->sentence : h.sent;
            std::string r1, r2, w = "<Sentence: " + want + ">";
            o = sut([&] { std::string x = p.__repr__(), y = p.__repr__(&I()); arena::Out z; r1 = take(x); r2 = take(y); });
            if (!o.ok || r1 != w || r2 != w) viol({"render", "clock"}, "a sentence that should be shown as " + cut(w) + " is shown as " + cut(r1) + " and " + cut(r2) + " " + o.what);
        }
        if (h.kind == 't')
        {
            o = sut([&] { std::string x = I().interpret(*h.task); arena::Out z; got = take(x); });
            std::string b = budget_text(got, h);
            if (!o.ok || got != b + want) viol({"render"}, "task should read " + b + cut(want) + " but reads " + cut(got));
            std::string r1, r2, w = "<Task: " + got + ">";
            o = sut([&] { std::string x = h.task.__repr__(nullptr), y = h.task.__repr__(&I()); arena::Out z; r1 = take(x); r2 = take(y); });
            if (!o.ok || r1 != w || r2 != w) viol({"render"}, "a task that should be shown as " + cut(w) + " is shown as " + cut(r1) + " and " + cut(r2) + " " + o.what);
            if (colored)
            {
                o = sut([&] { std::string x = I().interpret(*h.task, true); arena::Out z; gotc = take(x); });
                std::string s = strip(gotc);
                if (!o.ok || s.size() < want.size() || s.substr(s.size() - want.size()) != want || s.find(b.substr(1, 4)) == std::string::npos || s.find(b.substr(6, 4)) == std::string::npos || s.find(b.substr(11, 4)) == std::string::npos)
                    viol({"render"}, "coloured task reads " + cut(s) + " instead of ... " + cut(want));
            }
        }
        CNT->add("rendered");
    }

    // ---- what a line must mean ----
    // The settings a line falls back on.  The two kinds of default confidence are always set alike.
    struct Knobs { double v[14]; };
    const Knobs KNOBS0 = {{1.0, 0.9, 1.0, 0.8, 0.8, 0.5, 0.8, 0.5, 0.9, 0.9, 0.9, 0.9, 0.9, 0.9}};
    Knobs KN = KNOBS0;
    void set_knob(int i, double v)
    {
        static float *const at[14][3] = {{&CONFIG::f}, {&CONFIG::c, &CONFIG::c_judgement, &CONFIG::c_goal}, {&CONFIG::k}, {&CONFIG::priority}, {&CONFIG::durability}, {&CONFIG::quality},
            {&CONFIG::p_judgement}, {&CONFIG::d_judgement}, {&CONFIG::p_question}, {&CONFIG::d_question}, {&CONFIG::p_goal}, {&CONFIG::d_goal}, {&CONFIG::p_quest}, {&CONFIG::d_quest}};
        for (float *p : at[i]) if (p) *p = (float)v;
        KN.v[i] = v;
    }
    struct FactorySettings
    {
        Knobs was = KN;
        FactorySettings() { for (int i = 0; i < 14; i++) set_knob(i, KNOBS0.v[i]); }
        ~FactorySettings() { for (int i = 0; i < 14; i++) set_knob(i, was.v[i]); }
    };
    void defaults(Task &m)
    {
        bool tr = m.punct == '.' || m.punct == '!';
        if (tr) for (int i = m.nt; i < 3; i++) m.t[i] = KN.v[i];
        if (m.nb == 0) { for (int i = 0; i < 3; i++) m.b[i] = KN.v[3 + i]; return; }
        int pn = m.punct == '.' ? 0 : m.punct == '?' ? 1 : m.punct == '!' ? 2 : 3;
        if (m.nb < 2) m.b[1] = KN.v[7 + 2 * pn];
        if (m.nb < 3)
        {
            if (tr) { double e = m.t[1] * (m.t[0] - 0.5) + 0.5; m.b[2] = std::max(e, (1 - e) * 0.75); }
            else m.b[2] = 1.0;
        }
    }
    bool near(double a, double b) { return std::fabs(a - b) < 1e-5 + 1e-6 * std::fabs(b); }
    const char PUNCT[] = ".?!@";
    std::shared_ptr<StampModel> expect_stamp(const Task &m)
    {
        auto s = std::make_shared<StampModel>();
        long now = (long)clock_, d = (long)CONFIG::temporal_duration;
        s->eternal = m.tense == 3;
        s->created = now;
        s->occ = m.tense == 0 ? now - d : m.tense == 1 ? now : m.tense == 2 ? now + d : m.tense == 4 ? m.at : now;
        return s;
    }
    void check_stamp(const SENTENCE::pStamp &st, StampModel &s, const std::string &who, bool fresh)
    {
        if (!st) { viol({"ids", "clock", "struct"}, who + " has no stamp"); return; }
        if (st->is_eternal != s.eternal) viol({"clock"}, who + (s.eternal ? " is stamped as an event" : " is stamped as eternal"));
        if (!s.eternal && st->t_occurrence != s.occ) viol({"clock"}, who + " read at " + std::to_string(s.created) + " should be stamped " + std::to_string(s.occ) + " but is stamped " + std::to_string(st->t_occurrence));
        if (st->t_creation != s.created) viol({"clock"}, who + " was read at " + std::to_string(s.created) + " but its creation is stamped " + std::to_string(st->t_creation));
        if (!st->evidential_base || !st->evidential_base->_set) { viol({"ids"}, who + " has no evidential base"); return; }
        std::set<size_t> ids(st->evidential_base->_set->begin(), st->evidential_base->_set->end());
        if (fresh)
        {
            if (ids.size() != 1) viol({"ids"}, who + " carries " + std::to_string(ids.size()) + " evidential ids");
            for (auto i : ids) if (!ids_seen.insert(i).second) viol({"ids"}, who + " carries evidential id " + std::to_string(i) + " of an earlier input");
            s.ids = ids;
        }
        else if (ids != s.ids) viol({"ids", "merge"}, who + " changed its evidential base although nothing was merged into it");
    }
    void check_task(Handle &h, const std::string &who)
    {
        auto &m = h.m;
        auto &task = *h.task;
        if (!task.sentence || !task.budget) { viol({"struct", "numbers"}, who + " is incomplete"); return; }
        auto &s = *task.sentence;
        same(s.term.get(), h.t, {"struct"}, who);
        if (PUNCT[(int)s.punct] != m.punct) viol({"struct", "accept"}, who + " has the punctuation " + std::string(1, PUNCT[(int)s.punct]));
        bool tr = m.punct == '.' || m.punct == '!';
        if (tr)
        {
            if (!s.truth) viol({"numbers"}, who + " has no truth value");
            else if (!near(s.truth->f, m.t[0]) || !near(s.truth->c, m.t[1]) || !near(s.truth->k, m.t[2]))
                viol({"numbers"}, who + " should have truth " + fmt2(m.t[0], 3) + ";" + fmt2(m.t[1], 3) + ";" + fmt2(m.t[2], 1) + " but has " + fmt2(s.truth->f, 3) + ";" + fmt2(s.truth->c, 3) + ";" + fmt2(s.truth->k, 1));
        }
        if (!near(task.budget->priority, m.b[0]) || !near(task.budget->durability, m.b[1]) || !near(task.budget->quality, m.b[2]))
            viol({"numbers"}, who + " should have budget " + fmt2(m.b[0], 3) + ";" + fmt2(m.b[1], 3) + ";" + fmt2(m.b[2], 3) + " but has " + fmt2(task.budget->priority, 3) + ";" + fmt2(task.budget->durability, 3) + ";" + fmt2(task.budget->quality, 3));
    }

    // ---- standard input, in place of the real one: short reads, an end without newline, another line waiting behind ----
    struct Input
    {
        static inline std::string data;
        static inline size_t at, piece;
        static ssize_t read(void *, char *to, size_t n)
        {
            n = std::min({n, piece ? piece : n, data.size() - at});
            memcpy(to, data.data() + at, n);
            at += n;
            if (piece) piece = piece * 5 % 23; // 1 5 2 10 4 20 8 17 16 11 9 22 18 21 13 19 3 15 6 7 12 14
            return (ssize_t)n;
        }
        FILE *was = stdin, *now;
        Input(const std::string &text, int way)
        {
            data = text;
            at = 0;
            piece = way & 1 ? 1 + (size_t)(way >> 2) % 22 : 0;
            now = fopencookie(nullptr, "r", cookie_io_functions_t{read, nullptr, nullptr, nullptr});
            if (!now) { fprintf(stderr, "SIM: no stream\n"); exit(95); }
            stdin = now;
        }
        std::string rest()
        {
            std::string r;
            for (int c; (c = fgetc(now)) != EOF;) r.push_back((char)c);
            return r;
        }
        ~Input() { stdin = was; fclose(now); data.clear(); }
    };
    struct InputParser : NarseseParser // there is no other way to reach it
    {
        pTask from_input()
        {
            names_ivar.clear();
            names_dvar.clear();
            names_qvar.clear();
            error.clear();
            pTask task((TASK::Task *)this->parse_input());
            if (!error.empty()) throw std::out_of_range(error);
            return task;
        }
    };
    // A line is given to the parser: as a string, or through standard input.
    Outcome give(NarseseParser &p, const std::string &text, int way, pTask &t)
    {
        std::string in = text;
        if (!way) return sut([&] { t = p.parse_task(in); });
        std::string behind = way & 2 ? "\n<next --> line>.\n" : "";
        Input input(text + behind, way);
        CNT->add(way & 1 ? "input_pieces" : "input_whole");
        if (!(way & 2)) CNT->add("fault_input_ends");
        Outcome o = sut([&] { t = static_cast<InputParser &>(p).from_input(); });
        if (o.oom) return o;
        std::string all = text + behind, left = input.rest();
        size_t end = all.find('\n');
        std::string due = end == std::string::npos ? "" : all.substr(end + 1);
        if (left != due) viol({"outcome"}, "after the line " + cut(text) + " was read from standard input, what is left to read is " + cut(left) + " in place of " + cut(due));
        return o;
    }

    // The outcome of an arbitrary line, in a form that does not depend on addresses.
    std::string outcome(NarseseParser &p, const std::string &line, pTask *keep, int way = 0)
    {
        pTask t;
        Outcome o = give(p, line, way, t);
        if (o.oom) return "O";
        if (!o.ok || t == nullptr) return "R";
        std::string r = "A ";
        if (!t->sentence || !t->sentence->term.get()) return "A incomplete";
        r += extract(*t->sentence->term)->key;
        r += PUNCT[(int)t->sentence->punct];
        if (t->sentence->stamp)
        {
            // Past, present and future are relative to the clock; a moment given as a number is not.
            long at = (long)t->sentence->stamp->t_occurrence;
            // (a line may spell both, one of them inside a quoted name: no telling here which one counts)
            auto says = [&](const char *x) { return line.find(x) != std::string::npos; };
            bool given = says(":!");
            if (t->sentence->stamp->is_eternal) r += " eternal";
            else if (given && (says(":|:") || says(":/:") || says(":\\:"))) r += " timed";
            else if (given) r += " at " + std::to_string(at);
            else { long d = at - (long)clock_, u = (long)CONFIG::temporal_duration; r += d == 0 ? " now" : d == u ? " one duration ahead" : d == -u ? " one duration ago" : " " + std::to_string(d) + " off"; }
        }
        if (t->sentence->truth) r += " %" + fmt2(t->sentence->truth->f, 4) + ";" + fmt2(t->sentence->truth->c, 4) + ";" + fmt2(t->sentence->truth->k, 4);
        r += " $" + fmt2(t->budget->priority, 4) + ";" + fmt2(t->budget->durability, 4) + ";" + fmt2(t->budget->quality, 4);
        if (keep) *keep = t;
        sut([&] { t = pTask(); });
        return r;
    }

    // Runs f in a forked child; returns its output, and how it ended.
    template <class F>
    std::string forked(F f, int &status, int seconds = 20)
    {
        int fd[2];
        if (pipe(fd)) { perror("pipe"); _exit(97); }
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(97); }
        if (!pid)
        {
            close(fd[0]);
            signal(SIGALRM, SIG_DFL);
            alarm((unsigned)seconds);
            std::string r = f();
            size_t off = 0;
            while (off < r.size()) { ssize_t n = write(fd[1], r.data() + off, r.size() - off); if (n <= 0) break; off += (size_t)n; }
            _exit(0);
        }
        close(fd[1]);
        std::string r;
        char b[4096];
        ssize_t n;
        while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, (size_t)n);
        close(fd[0]);
        waitpid(pid, &status, 0);
        return r;
    }
    void die_like(int status, const std::string &what)
    {
        fprintf(stderr, "SIM: %s ended with status %x\n", what.c_str(), status);
        fflush(stderr);
        _exit(94);
    }

    // ---- invariants over the whole system ----
    void names_of(const T &t, std::set<std::string> &out)
    {
        std::set<std::string> s;
        names(t, s);
        for (auto &n : s) if (n[0] != '@') out.insert(n);
    }
    template <class X>
    std::set<std::string> known(X &i)
    {
        std::set<std::string> r;
        for (auto &[k, v] : i.dictionary) r.insert(take(v));
        return r;
    }
    template <class X>
    void check_tables(X &i, const std::set<std::string> &live, const std::set<std::string> &may, const char *which)
    {
        auto have = known(i);
        for (auto &n : live) if (!have.count(n)) viol({"table"}, std::string("the ") + which + " forgot the name " + cut(n) + " although it is in use");
        for (auto &n : have) if (!live.count(n) && !may.count(n) && !(n.empty() && !maybe.empty())) viol({"table"}, std::string("the ") + which + " still knows the name " + cut(n) + " although nothing uses it");
        if (!maybe.empty() && (void *)&i == (void *)&I()) return; // an entry whose making failed may be half there
        if (have.size() != i.dictionary.size()) viol({"table", "identity"}, std::string("the ") + which + " lists a name twice");
        if constexpr (requires { i.dictionary_inv.begin()->second; })
        {
            if (i.dictionary_inv.size() != i.dictionary.size()) viol({"table"}, std::string("the tables of the ") + which + " disagree: " + std::to_string(i.dictionary.size()) + " names, " + std::to_string(i.dictionary_inv.size()) + " keys");
            else
                for (auto &[n, k] : i.dictionary_inv)
                {
                    auto it = i.dictionary.find(k);
                    if (it == i.dictionary.end() || it->second != n) { viol({"table", "identity"}, std::string("the tables of the ") + which + " disagree about the name " + cut(take(n))); break; }
                }
        }
        if constexpr (requires { i.objects.begin()->second->get(); })
            for (auto &[k, p] : i.objects)
                if (!i.dictionary.count(k)) { viol({"table", "alive"}, std::string("the ") + which + " keeps a holder without a name"); break; }
    }
    void walk(Term &t, std::map<std::string, Term *> &by_name, std::map<Term *, std::string> &by_ptr, int depth = 0)
    {
        if (depth > 600) return;
        if (t.is_statement()) { walk(*t.subject, by_name, by_ptr, depth + 1); walk(*t.predicate, by_name, by_ptr, depth + 1); return; }
        if (t.is_compound())
        {
            if (t.terms->_is_commutative) { for (auto &x : t.terms->terms_unordered) walk(*x, by_name, by_ptr, depth + 1); }
            else { for (auto &x : t.terms->terms_ordered) walk(*x, by_name, by_ptr, depth + 1); }
            return;
        }
        if (t.is_var || t.is_interval) return;
        if (by_ptr.count(&t)) return;
        std::string n = atom_name(t);
        if (t.is_operation && n[0] != '^') n = "^" + n;
        if (!t.is_operation && n[0] == '^') n = "!" + n;
        by_ptr[&t] = n;
        auto [it, fresh] = by_name.emplace(n, &t);
        if (!fresh && it->second != &t) viol({"identity"}, "the name " + cut(n) + " stands for two different atoms at once");
    }
    pTerm *py_term(Handle &h)
    {
        try { return &py::handle(h.obj).cast<pTerm &>(); }
        catch (...) { return nullptr; }
    }
    void check_all(bool full)
    {
        std::set<std::string> live, may = maybe, live2;
        std::map<std::string, Term *> by_name;
        std::map<Term *, std::string> by_ptr;
        for (auto &[id, hp] : H)
        {
            Handle &h = *hp;
            std::string who = "object " + std::to_string(id);
            switch (h.kind)
            {
            case 't': same(h.task->sentence->term.get(), h.t, {"alive"}, who); names_of(h.t, live); walk(*h.task->sentence->term, by_name, by_ptr); check_stamp(h.task->sentence->stamp, *h.sm, who, false); break;
            case 's': same(h.sent->term.get(), h.t, {"alive"}, who); names_of(h.t, live); walk(*h.sent->term, by_name, by_ptr); check_stamp(h.sent->stamp, *h.sm, who, false); break;
            case 'e': same(h.term.get(), h.t, {"alive"}, who); names_of(h.t, live); walk(*h.term, by_name, by_ptr); break;
            case 'b':
                for (size_t i = 0; i < h.bag.size(); i++) { same(h.bag[i].get(), h.bagm[i], {"alive"}, who + "[" + std::to_string(i) + "]"); names_of(h.bagm[i], live); walk(*h.bag[i], by_name, by_ptr); }
                break;
            case '2': live2.insert(h.t->name); break;
            case 'p':
                names_of(h.t, h.pk == 'i' ? may : live);
                if (h.pk == 'i') for (auto &x : h.rest) names_of(x, live);
                if (h.pk == 'e') if (pTerm *t = py_term(h)) { same(t->get(), h.t, {"alive", "py"}, "python " + who); walk(**t, by_name, by_ptr); }
                break;
            }
            if (full && h.kind == 'e' && h.t->var && h.t->size < 200) check_vars_deep(*h.term, h.t);
            if (full && h.kind == 't' && h.t->var && h.t->size < 200) check_vars_deep(*h.task->sentence->term, h.t);
        }
        for (auto &t : cycle_terms) names_of(t, live);
        check_tables(I(), live, may, "interpreter");
        if (interp2) check_tables(*interp2, live2, {}, "private interpreter");
        std::string c = arena::corruption();
        if (!c.empty()) { fprintf(stderr, "SIM-HEAP: %s\n", c.c_str()); _exit(98); }
    }
    uint64_t fnv(uint64_t h, const std::string &s) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
    uint64_t state_fp()
    {
        std::multiset<std::string> keys;
        for (auto &[id, h] : H) { std::string k(1, h->kind); if (h->kind != 'b' && h->t) k += h->t->size > 300 ? std::to_string(h->t->size) : h->t->key; else for (auto &x : h->bagm) k += x->key; keys.insert(k); }
        uint64_t f = 1469598103934665603ull;
        for (auto &k : keys) f = fnv(f, k + "\n");
        return fnv(f, std::to_string(I().dictionary.size()));
    }

    Handle *get(int id, const char *kinds)
    {
        auto it = H.find(id);
        if (it == H.end()) return nullptr;
        for (const char *k = kinds; *k; k++) if (it->second->kind == *k) return it->second.get();
        return nullptr;
    }
    Handle &put(int id, char kind, T t)
    {
        auto h = std::make_unique<Handle>();
        h->kind = kind;
        h->t = t;
        auto &r = *h;
        H[id] = std::move(h);
        return r;
    }
    void release(int id)
    {
        auto it = H.find(id);
        if (it == H.end()) return;
        Handle &h = *it->second;
        Outcome o = sut([&]
            {
                h.task = pTask(); h.sent = pSentence(); h.term = pTerm();
                std::vector<pTerm>().swap(h.bag);
                if (h.obj) { PyObject *x = h.obj; h.obj = nullptr; Py_DECREF(x); }
            });
        if (!o.ok) viol({"alive", "heap", "table"}, "releasing an object failed: " + o.what);
        if (h.kind == '2' || h.kind == 'o') {}
        H.erase(it);
    }
    Term *root(Handle &h) { return h.kind == 't' ? h.task->sentence->term.get() : h.kind == 's' ? h.sent->term.get() : h.term.get(); }
    pTerm root_p(Handle &h) { return h.kind == 't' ? h.task->sentence->term : h.kind == 's' ? h.sent->term : h.term; }

    // The component of t whose structure is m.
    pTerm component(Term &t, const T &m, bool &ok)
    {
        ok = false;
        pTerm r;
        auto look = [&](const pTerm &x) { if (!ok && x.get() && extract(*x)->key == m->key) { arena::Scope s; r = x; ok = true; } };
        if (t.is_statement()) { look(t.subject); look(t.predicate); }
        else if (t.is_compound()) { if (t.terms->_is_commutative) { for (auto &x : t.terms->terms_unordered) look(x); } else { for (auto &x : t.terms->terms_ordered) look(x); } }
        return r;
    }
    NarseseParser &parser(int i)
    {
        if (i < 0 || i > 3) i = 0;
        if (i && !parsers[i]) i = 0;
        return i ? *parsers[i] : *NARSESEPARSER::parser;
    }
    void maybe_names(const std::string &line)
    {
        try { names_of(read_task(line).term, maybe); }
        catch (Bad &) {}
        // Names in a damaged line, or that a reduction leaves out: every maximal run of name characters and every
        // quoted string, both as atom and as operation.
        std::string w;
        for (size_t i = 0; i <= line.size(); i++)
            if (i < line.size() && !Reader::special(line[i])) w += line[i];
            else { if (!w.empty()) { maybe.insert(w); maybe.insert("^" + w); } w.clear(); }
        for (size_t i = 0; i < line.size(); i++)
            if (line[i] == '"')
                for (size_t j = i + 1; j < line.size() && line[j - 1] != '\n'; j++)
                    if (line[j] == '"') { w = line.substr(i, j - i + 1); maybe.insert(w); maybe.insert("^" + w); if (line[j - 1] != '\\') break; }
    }
    void forget_maybe(const T &) {}

    void new_task(int id, pTask &t, const Task &m, T term, const std::string &who)
    {
        Handle &h = put(id, 't', term);
        sut([&] { h.task = t; t = pTask(); });
        h.m = m;
        defaults(h.m);
        h.sm = expect_stamp(m);
        h.group = ++groups;
        check_task(h, who);
        check_stamp(h.task->sentence->stamp, *h.sm, who, true);
    }

    // equality, order, hash and measures over all terms alive
    void check_eq()
    {
        std::vector<std::pair<Term *, T>> v;
        std::set<Term *> seen;
        std::function<void(Term &, const T &, int)> rec = [&](Term &t, const T &, int d)
        {
            if (v.size() > 70 || !seen.insert(&t).second) return;
            T m = extract(t);
            if (m->size > 80) return;
            v.push_back({&t, m});
            if (d > 2) return;
            if (t.is_statement()) { rec(*t.subject, m, d + 1); rec(*t.predicate, m, d + 1); }
            else if (t.is_compound()) { if (t.terms->_is_commutative) { for (auto &x : t.terms->terms_unordered) rec(*x, m, d + 1); } else { for (auto &x : t.terms->terms_ordered) rec(*x, m, d + 1); } }
        };
        for (auto &[id, hp] : H)
        {
            if (hp->kind == 't' || hp->kind == 's' || hp->kind == 'e') rec(*root(*hp), hp->t, 0);
            if (hp->kind == 'b') for (size_t i = 0; i < hp->bag.size(); i++) rec(*hp->bag[i], hp->bagm[i], 1);
            if (hp->kind == 'p' && hp->pk == 'e') if (pTerm *t = py_term(*hp)) rec(**t, hp->t, 1);
        }
        size_t n = v.size();
        std::vector<std::vector<char>> less(n, std::vector<char>(n));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
            {
                bool eq = false, lt = false;
                Outcome o = sut([&] { eq = *v[i].first == *v[j].first; lt = *v[i].first < *v[j].first; });
                if (!o.ok) { viol({"eq", "order"}, "comparing failed: " + o.what); continue; }
                bool want = v[i].second->key == v[j].second->key;
                if (eq != want) viol({"eq"}, cut(v[i].second->key) + (eq ? " == " : " != ") + cut(v[j].second->key));
                less[i][j] = lt;
                if (want)
                {
                    auto &a = *v[i].first, &b = *v[j].first;
                    if (lt) viol({"order"}, cut(v[i].second->key) + " < an equal term");
                    if (a.hash_value != b.hash_value || a.__hash__() != b.__hash__()) viol({"hash"}, "equal terms have different hashes: " + cut(v[i].second->key));
                    if (a.complexity != b.complexity) viol({"hash"}, "equal terms have complexity " + std::to_string(a.complexity) + " and " + std::to_string(b.complexity) + ": " + cut(v[i].second->key));
                    if (a.is_higher_order != b.is_higher_order || a.is_operation != b.is_operation || a.has_var != b.has_var) viol({"hash"}, "equal terms disagree in their flags: " + cut(v[i].second->key));
                }
            }
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < i; j++)
                if (v[i].second->key != v[j].second->key && less[i][j] == less[j][i]) viol({"order"}, std::string("neither or both of ") + cut(v[i].second->key) + " and " + cut(v[j].second->key) + " comes first");
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                if (less[i][j])
                    for (size_t k = 0; k < n; k++)
                        if (less[j][k] && !less[i][k]) viol({"order"}, "the order is not transitive: " + cut(v[i].second->key) + ", " + cut(v[j].second->key) + ", " + cut(v[k].second->key));
        CNT->add("compared_pairs", n * n);
    }
    void check_sorted(const Terms &ts, std::initializer_list<const char *> tags)
    {
        const pTerm *prev = nullptr;
        for (auto &x : ts.terms_unordered)
        {
            if (prev)
            {
                bool up = false, down = false;
                sut([&] { up = **prev < *x; down = *x < **prev; });
                if (!up || down) viol(tags, "the components of a set are out of order or doubled");
            }
            prev = &x;
        }
    }

    void made(int id, pTerm &t, const T &m, const std::string &who)
    {
        Handle &h = put(id, 'e', m);
        sut([&] { h.term = t; t = pTerm(); });
        h.group = ++groups;
        same(h.term.get(), m, {"create"}, who);
        if (h.term.get() && m->size < 200) check_vars_deep(*h.term, m);
    }

    // Solve for the address of an atom with the given hash: hash = Hash{}({ATOM, address}).
    uintptr_t address_for(size_t hash)
    {
        size_t s = UTILS::Hash{}(std::initializer_list<size_t>{(size_t)TERM::TermType::ATOM});
        // combine: seed ^= v + 0x9e3779b9 + (seed << 6) + (seed >> 2)
        return (uintptr_t)((hash ^ s) - 0x9e3779b9 - (s << 6) - (s >> 2));
    }
    size_t hash_for(uintptr_t a) { return UTILS::Hash{}(std::initializer_list<size_t>{(size_t)TERM::TermType::ATOM, (size_t)a}); }
    size_t stmt_hash(size_t hs, int cop, size_t hp)
    {
        std::vector<size_t> v{(size_t)TERM::TermType::STATEMENT, (size_t)'<', hs, (size_t)cop, hp};
        return UTILS::Hash{}(v);
    }
    pTerm atom_at(uintptr_t a, const std::string &name)
    {
        pTerm t;
        sut([&] { if (a) arena::force_next(sizeof(Term), a); t = Term::create(name.c_str()); });
        return t;
    }

    std::string py_str(PyObject *o)
    {
        if (!o) return "";
        Py_ssize_t n = 0;
        const char *c = PyUnicode_AsUTF8AndSize(o, &n);
        if (!c) { PyErr_Clear(); return "?"; }
        return std::string(c, (size_t)n);
    }
    std::string py_error(std::string *type = nullptr)
    {
        PyObject *t, *v, *b;
        PyErr_Fetch(&t, &v, &b);
        std::string r;
        if (t)
        {
            if (type) *type = ((PyTypeObject *)t)->tp_name;
            PyObject *s = v ? PyObject_Str(v) : nullptr;
            r = py_str(s);
            Py_XDECREF(s);
        }
        else if (type) *type = "";
        Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
        return r;
    }
    Handle &put_py(int id, PyObject *o, T t, char pk)
    {
        Handle &h = put(id, 'p', t);
        h.obj = o;
        h.pk = pk;
        h.group = ++groups;
        return h;
    }
    // call into Python with the scope open
    template <class F>
    PyObject *pycall(F f, Outcome &o)
    {
        PyObject *r = nullptr;
        o = sut([&] { r = f(); });
        if (o.ok && !r) { o.ok = false; }
        return r;
    }
    void check_repr(Handle &h)
    {
        Outcome o;
        static PyObject *given; // repr() and __repr__(None) are the same
        if (!given) given = PyUnicode_FromString("__repr__");
        bool plain = h.group % 3 != 0;
        PyObject *r = pycall([&] { return plain ? PyObject_Repr(h.obj) : PyObject_CallMethodObjArgs(h.obj, given, Py_None, nullptr); }, o);
        if (!r) { std::string e = py_error(); if (!o.oom) viol({"py"}, "repr() failed: " + e + o.what); return; }
        std::string s = py_str(r);
        Py_DECREF(r);
        if (h.pk == 'e')
        {
            std::string p = "<" + mark(h.t) + ": ";
            if (s.compare(0, p.size(), p) || s.back() != '>') { viol({"py"}, "repr of " + cut(h.t->key) + " is " + cut(s)); return; }
            std::string body = s.substr(p.size(), s.size() - p.size() - 1);
            T x;
            try { x = with_anon(read_term(body, true)); }
            catch (Bad &) {}
            if (!x || x->key != h.t->key) viol({"py"}, "repr of " + cut(h.t->key) + " is " + cut(s));
        }
        else if (h.pk == 't' || h.pk == 's')
        {
            std::string p = h.pk == 't' ? "<Task: " : "<Sentence: ";
            if (s.compare(0, p.size(), p) || s.back() != '>') { viol({"py"}, "repr of a task is " + cut(s)); return; }
            std::string body = s.substr(p.size(), s.size() - p.size() - 1);
            std::string tail = sentence_tail(h);
            if ((h.m.punct == '.' || h.m.punct == '!') && h.sentence_truth && body.size() > tail.size())
                tail = settle(body.substr(body.size() - tail.size()), tail, {h.m.t[0], shown_c(h)}, 3, '%');
            if (h.pk == 't')
            {
                std::string b = budget_text(body, h);
                if (body.compare(0, b.size(), b) || body.size() < b.size() + 1) { viol({"py"}, "repr of a task with budget " + b + " is " + cut(s)); return; }
                body = body.substr(b.size());
            }
            if (body.size() < tail.size() || body.substr(body.size() - tail.size()) != tail) { viol({"py", "clock"}, "repr of a sentence ending in \"" + tail + "\" is " + cut(s)); return; }
            body = body.substr(0, body.size() - tail.size());
            T x;
            try { x = with_anon(read_term(body, true)); }
            catch (Bad &) {}
            if (!x || x->key != h.t->key) viol({"py"}, "repr of " + cut(h.t->key) + " is " + cut(s));
        }
    }
    // PyGC_Collect does nothing while collection is disabled, and it is disabled so that only the plan decides when it runs.
    void collect_garbage()
    {
        if (!pymod) return;
        arena::Scope s;
        PyGC_Enable();
        PyGC_Collect();
        PyGC_Disable();
    }
    const char *CONNAME[] = {"Conjunction", "Disjunction", "Product", "ParallelEvents", "SequentialEvents", "IntensionalIntersection", "ExtensionalIntersection", "ExtensionalDifference", "IntensionalDifference", "Negation", "IntensionalSet", "ExtensionalSet", "IntensionalImage", "ExtensionalImage"};
    const char *COPNAME[] = {"Inheritance", "Similarity", "Instance", "Property", "InstanceProperty", "Implication", "PredictiveImplication", "ConcurrentImplication", "RetrospectiveImplication", "Equivalence", "PredictiveEquivalence", "ConcurrentEquivalence"};
    PyObject *py_enum(const char *cls, const char *val)
    {
        PyObject *c = PyObject_GetAttrString(pymod, cls);
        if (!c) return nullptr;
        PyObject *v = PyObject_GetAttrString(c, val);
        Py_DECREF(c);
        return v;
    }

    void reset_world()
    {
        clock_ = 0;
        GLOBAL::time = 0;
        CONFIG::temporal_duration = 5;
        CONFIG::maximum_evidential_base_length = 20000;
        for (int i = 0; i < 14; i++) set_knob(i, KNOBS0.v[i]);
    }

    void step(int id, const Strs &a, const std::string &text);
    void step_py(int id, const Strs &a, const std::string &text);
}

#include "steps.inl"

void python_up()
{
    PyImport_AppendInittab("narsese", PyInit_narsese);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.site_import = 0;
    c.use_hash_seed = 1;
    c.hash_seed = 0;
    c.install_signal_handlers = 0;
    PyStatus s = Py_InitializeFromConfig(&c);
    PyConfig_Clear(&c);
    if (PyStatus_Exception(s)) { fprintf(stderr, "SIM: python does not start: %s\n", s.err_msg ? s.err_msg : ""); exit(97); }
    pymod = PyImport_ImportModule("narsese");
    if (!pymod) { PyErr_Print(); fprintf(stderr, "SIM: module narsese does not load\n"); exit(97); }
    PyGC_Disable();
}
