// The reference model: Narsese terms as plain trees, an independent reader for the surface syntax, and the
// canonical form that the library promises. Nothing here uses the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <cstring>
#include <string>
#include <vector>

namespace model
{
    enum Con { CONJ, DISJ, PROD, PAR, SEQ, INTINT, EXTINT, EXTDIFF, INTDIFF, NEG, INTSET, EXTSET, INTIMG, EXTIMG, NCON };
    inline const char *CON[] = {"&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/"};
    inline bool con_commutative(int c) { return c == CONJ || c == DISJ || c == PAR || c == INTINT || c == EXTINT || c == INTSET || c == EXTSET; }
    inline bool con_flat(int c) { return con_commutative(c) || c == SEQ; }
    inline bool con_many(int c) { return c == CONJ || c == DISJ || c == PAR || c == SEQ || c == INTINT || c == EXTINT; }
    enum Cop { INH, SIM, INST, PROP, INSTPROP, IMP, PIMP, CIMP, RIMP, EQV, PEQV, CEQV, NCOP };
    inline const char *COP[] = {"-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"};

    enum Kind { ATOM, OP, VAR, IVAL, STMT, CMPD };
    struct Node;
    using T = std::shared_ptr<const Node>;
    struct Node
    {
        Kind k;
        std::string name;   // ATOM, OP (without ^), VAR (name as written; "" in numbered form)
        char vk = 0;        // VAR: $ # ?
        long n = 0;         // VAR: number; IVAL: value
        int c = -1;         // STMT: copula; CMPD: connector
        std::vector<T> a;   // STMT: subject, predicate; CMPD: components
        std::string key;    // canonical text; equal keys <=> structurally equal
        int size = 1;
        bool var = false;
        bool degenerate = false; // contains a compound of a connector that needs several components with only one
    };

    inline T finish(Node n)
    {
        n.size = 1; n.var = n.k == VAR;
        for (auto &x : n.a) { n.size += x->size; n.var |= x->var; n.degenerate |= x->degenerate; }
        if (n.k == CMPD && con_many(n.c) && n.a.size() < 2) n.degenerate = true;
        switch (n.k)
        {
        case ATOM: n.key = n.name; break;
        case OP: n.key = "^" + n.name; break;
        case VAR: n.key = std::string(1, n.vk) + (n.name.empty() ? std::to_string(n.n) : "'" + n.name); break;
        case IVAL: n.key = "+" + std::to_string(n.n); break;
        case STMT: n.key = "<" + n.a[0]->key + " " + COP[n.c] + " " + n.a[1]->key + ">"; break;
        case CMPD:
            n.key = "(" + std::string(CON[n.c]);
            if (con_commutative(n.c))
                std::sort(n.a.begin(), n.a.end(), [](const T &x, const T &y) { return x->key < y->key; });
            for (auto &x : n.a) n.key += ", " + x->key;
            n.key += ")";
        }
        return std::make_shared<const Node>(std::move(n));
    }
    inline T atom(const std::string &s) { Node n{ATOM}; n.name = s; return finish(n); }
    inline T op(const std::string &s) { Node n{OP}; n.name = s; return finish(n); }
    inline T var(char k, const std::string &name, long num = 0) { Node n{VAR}; n.vk = k; n.name = name; n.n = num; return finish(n); }
    inline T ival(long v) { Node n{IVAL}; n.n = v; return finish(n); }
    inline T stmt(T s, int cop, T p) { Node n{STMT}; n.c = cop; n.a = {s, p}; return finish(n); }
    inline T cmpd(int con, std::vector<T> a) { Node n{CMPD}; n.c = con; n.a = std::move(a); return finish(n); } // as given, unreduced

    inline std::vector<T> as_set(std::vector<T> v)
    {
        std::sort(v.begin(), v.end(), [](const T &x, const T &y) { return x->key < y->key; });
        v.erase(std::unique(v.begin(), v.end(), [](const T &x, const T &y) { return x->key == y->key; }), v.end());
        return v;
    }
    inline std::vector<T> inter(const std::vector<T> &x, const std::vector<T> &y)
    {
        std::vector<T> r;
        for (auto &t : x) if (std::any_of(y.begin(), y.end(), [&](const T &u) { return u->key == t->key; })) r.push_back(t);
        return r;
    }
    inline std::vector<T> minus(const std::vector<T> &x, const std::vector<T> &y)
    {
        std::vector<T> r;
        for (auto &t : x) if (!std::any_of(y.begin(), y.end(), [&](const T &u) { return u->key == t->key; })) r.push_back(t);
        return r;
    }
    inline std::vector<T> uni(std::vector<T> x, const std::vector<T> &y) { x.insert(x.end(), y.begin(), y.end()); return as_set(x); }

    // The canonical compound over components that are canonical already.
    inline T make(int con, std::vector<T> a)
    {
        if (!con_flat(con)) return cmpd(con, a);
        std::vector<T> f;
        for (auto &x : a)
            if (x->k == CMPD && x->c == con) f.insert(f.end(), x->a.begin(), x->a.end());
            else f.push_back(x);
        if (!con_commutative(con)) return cmpd(con, f);
        f = as_set(f);
        if (con == EXTINT || con == INTINT)
        {
            std::vector<T> rest;
            std::map<int, std::vector<T>> sets;
            for (auto &x : f)
                if (x->k == CMPD && (x->c == EXTSET || x->c == INTSET)) sets[x->c].push_back(x);
                else rest.push_back(x);
            size_t merged = 0;
            for (auto &[c, v] : sets)
            {
                bool cut = (con == EXTINT) == (c == EXTSET);
                std::vector<T> m = v[0]->a;
                for (size_t i = 1; i < v.size(); i++) m = cut ? inter(m, v[i]->a) : uni(m, v[i]->a);
                if (m.empty()) rest.insert(rest.end(), v.begin(), v.end());
                else { rest.push_back(cmpd(c, as_set(m))); merged++; }
            }
            f = as_set(rest);
            if (f.size() == 1 && merged) return f[0];
        }
        return cmpd(con, f);
    }

    // ---- reading ----
    struct Bad : std::runtime_error { using runtime_error::runtime_error; };
    struct Task
    {
        T term;                  // numbered and canonical (or, when read raw, as written)
        char punct = '.';
        int tense = 3;           // 0 past 1 present 2 future 3 eternal 4 explicit
        long at = 0;             // explicit time
        bool doubt = false;      // a number may be out of range
        int nb = 0, nt = 0;      // how many budget / truth numbers
        double b[3] = {0, 0, 0}, t[3] = {0, 0, 0};
    };
    struct Numbering
    {
        std::map<std::string, long> m[3];
        static int idx(char k) { return k == '$' ? 0 : k == '#' ? 1 : 2; }
        long of(char k, const std::string &n) { auto &x = m[idx(k)]; return x.emplace(n, (long)x.size()).first->second; }
    };
    class Reader
    {
        const std::string &s;
        size_t i = 0;
        bool raw; // raw: no reduction, variables are numbers already
        bool doubt = false; // a number is out of range, or at its edge
        Numbering num;
    public:
        Reader(const std::string &s, bool raw) : s(s), raw(raw) {}
        // Blanks.  Where a name may begin, the lexer takes a tab for part of the name (a known finding), elsewhere for a blank.
        void ws() { while (i < s.size() && (s[i] == ' ' || (s[i] == '\t' && !raw))) i++; }
        void blanks() { while (i < s.size() && s[i] == ' ') i++; }
        bool tab() const { return i < s.size() && s[i] == '\t'; }
        bool at(const char *t) { ws(); return s.compare(i, strlen_(t), t) == 0; }
        static size_t strlen_(const char *t) { size_t n = 0; while (t[n]) n++; return n; }
        bool eat(const char *t) { if (!at(t)) return false; i += strlen_(t); return true; }
        void need(const char *t) { if (!eat(t)) throw Bad("expected " + std::string(t) + " at " + std::to_string(i) + " of: " + s); }
        static bool special(char c) { for (const char *p = "-+<>=\"&|!.?@~%;,:/\\*#$[]{}()^ "; *p; p++) if (c == *p) return true; return (unsigned char)c >= 0x80 || c == 0 || c == '\n'; }
        std::string word()
        {
            blanks();
            size_t j = i;
            if (i < s.size() && s[i] == '"')
            {
                for (j++; j < s.size() && s[j] != '"';)
                {
                    // a backslash quotes a backslash or a quotation mark, and follows some other character
                    if (s[j] == '\\') throw Bad("a backslash without a character before it");
                    j++;
                    if (j + 1 < s.size() && s[j] == '\\' && (s[j + 1] == '\\' || s[j + 1] == '"')) j += 2;
                }
                if (j >= s.size()) throw Bad("unterminated string");
                j++;
            }
            else
                while (j < s.size() && !special(s[j])) j++;
            if (j == i) throw Bad("expected a word at " + std::to_string(i) + " of: " + s);
            std::string w = s.substr(i, j - i);
            i = j;
            return w;
        }
        long integer()
        {
            ws();
            size_t j = i;
            if (j < s.size() && s[j] == '-') j++;
            size_t d = j;
            while (j < s.size() && isdigit((unsigned char)s[j])) j++;
            if (j == d) throw Bad("expected an integer");
            long v = strtol(s.substr(i, j - i).c_str(), nullptr, 10);
            if (v > 2147483647L || v < -2147483647L) doubt = true;
            i = j;
            return v;
        }
        // 'u': 0 <= x <= 1, 'o': 0 < x < 1, 'k': x > 0
        double number(char kind)
        {
            ws();
            size_t j = i;
            auto digits = [&](const char *set) { size_t n = 0; while (j < s.size() && strchr(set, s[j]) && s[j]) j++, n++; return n; };
            if (kind == 'k') { if (j < s.size() && s[j] == '0') throw Bad("expected a positive number"); if (!digits("0123456789")) throw Bad("expected a number"); }
            else
            {
                if (j < s.size() && s[j] == '0') j++;
                bool zero = j > i;
                if (j + 1 < s.size() && s[j] == '.' && isdigit((unsigned char)s[j + 1]))
                {
                    j++;
                    size_t from = j;
                    digits("0123456789");
                    if (kind == 'o' && s.find_first_not_of('0', from) >= j) throw Bad("expected a number above 0");
                }
                else if (kind == 'o') throw Bad("expected a number between 0 and 1");
                else if (!zero)
                {
                    if (j >= s.size() || s[j] != '1') throw Bad("expected a number");
                    j++;
                    if (j < s.size() && s[j] == '.') { j++; digits("0"); }
                }
            }
            double v = strtod(s.substr(i, j - i).c_str(), nullptr);
            if (kind == 'k' && !(v < 3.4e38)) doubt = true;
            i = j;
            return v;
        }
        int copula()
        {
            ws();
            for (int c = 0; c < NCOP; c++) if (eat(COP[c])) return c;
            return -1;
        }
        T build(int con, std::vector<T> a) { return raw ? cmpd(con, std::move(a)) : make(con, std::move(a)); }
        T statement(T l, int c, T r)
        {
            if (!raw)
            {
                if (c == INST || c == INSTPROP) l = make(EXTSET, {l});
                if (c == PROP || c == INSTPROP) r = make(INTSET, {r});
                if (c == INST || c == PROP || c == INSTPROP) c = INH;
            }
            return stmt(l, c, r);
        }
        T operation(const std::string &w, std::vector<T> args) { return stmt(cmpd(PROD, std::move(args)), INH, op(w)); }
        T infix(const T &x) // "b & c & ..." after x, if there is any
        {
            ws();
            for (int k : {CONJ, DISJ, PAR, SEQ, INTINT, EXTINT, PROD})
                if (at(CON[k]))
                {
                    std::vector<T> a{x};
                    while (eat(CON[k])) a.push_back(term());
                    return build(k, a);
                }
            return x;
        }
        T operand() { T x = term(); return infix(x); }
        T paren()
        {
            blanks();
            size_t save = i;
            bool name = tab();
            if (!name && at("--")) // (--, a), unless the negation of something longer
            {
                i += 2; blanks(); // a name may begin here
                if (!tab() && eat(",")) { T x = term(); need(")"); return build(NEG, {x}); }
                i = save;
            }
            for (int c : {CONJ, DISJ, PAR, SEQ, INTINT, EXTINT, PROD, EXTDIFF, INTDIFF, INTIMG, EXTIMG})
            {
                if (name) break;
                std::string t = std::string(CON[c]);
                if (s.compare(i, t.size(), t) == 0)
                {
                    size_t j = i + t.size();
                    while (j < s.size() && (s[j] == ' ' || s[j] == '\t')) j++;
                    if (j < s.size() && s[j] == ',')
                    {
                        i = j + 1;
                        std::vector<T> a;
                        if (raw && c == PROD && at(")")) { i++; return build(c, a); }
                        bool diff = c == EXTDIFF || c == INTDIFF;
                        do a.push_back(diff ? operand() : term()); while (eat(","));
                        need(")");
                        if (diff && a.size() != 2) throw Bad("a difference of " + std::to_string(a.size()));
                        if (!raw && a.size() < 2 && (c == CONJ || c == DISJ || c == PAR || c == SEQ || c == INTINT || c == EXTINT)) throw Bad("needs two components");
                        return build(c, a);
                    }
                }
            }
            if (!name && at("^"))
            {
                size_t q = i; i++;
                std::string w = word(); ws();
                if (at(",") || at(")"))
                {
                    std::vector<T> a;
                    while (eat(",")) a.push_back(term());
                    need(")");
                    return operation(w, a);
                }
                i = q;
            }
            T x = term();
            int c = copula();
            if (c >= 0) { T y = term(); need(")"); return statement(x, c, y); }
            if (at(","))
            {
                std::vector<T> a{x};
                while (eat(",")) a.push_back(term());
                need(")");
                return build(PROD, a);
            }
            T y = infix(x);
            for (int k : {EXTDIFF, INTDIFF})
                if (eat(CON[k])) { T z = operand(); need(")"); return build(k, {y, z}); }
            if (y != x) { need(")"); return y; }
            throw Bad("cannot read the parenthesis at " + std::to_string(i) + " of: " + s);
        }
        T term()
        {
            blanks();
            if (i >= s.size()) throw Bad("end of line");
            char c = s[i];
            if (c == '\t') return after_word();
            if (c == '$' || c == '#' || c == '?')
            {
                i++;
                std::string w = word();
                if (raw) return var(c, "", strtol(w.c_str(), nullptr, 10));
                return var(c, "", num.of(c, w));
            }
            if (c == '+') { i++; return ival(integer()); }
            if (c == '^') { i++; return op(word()); }
            if (eat("--")) return build(NEG, {term()});
            if (c == '<') { i++; T l = term(); int k = copula(); if (k < 0) throw Bad("expected a copula in: " + s); T r = term(); need(">"); return statement(l, k, r); }
            if (c == '{' || c == '[')
            {
                i++;
                std::vector<T> a;
                do a.push_back(term()); while (eat(","));
                need(c == '{' ? "}" : "]");
                return build(c == '{' ? EXTSET : INTSET, a);
            }
            if (c == '(') { i++; return paren(); }
            return after_word();
        }
        T after_word()
        {
            std::string w = word();
            if (!raw) ws();
            if (i < s.size() && s[i] == '(')
            {
                i++;
                std::vector<T> a;
                do a.push_back(term()); while (eat(","));
                need(")");
                return operation(w, a);
            }
            return atom(w);
        }
        Task task()
        {
            Task r;
            blanks();
            // a task that begins with "$" begins with a budget: a variable alone is no task
            if (i < s.size() && s[i] == '$')
            {
                i++;
                do { r.b[r.nb] = number(r.nb == 1 ? 'o' : 'u'); r.nb++; } while (r.nb < 3 && eat(";"));
                need("$");
            }
            r.term = term();
            if (r.term->k == VAR) throw Bad("a variable alone");
            ws();
            if (i >= s.size()) throw Bad("no punctuation");
            r.punct = s[i++];
            if (std::string(".?!@").find(r.punct) == std::string::npos) throw Bad("no punctuation");
            if (eat(":/:")) r.tense = 2;
            else if (eat(":|:")) r.tense = 1;
            else if (eat(":\\:")) r.tense = 0;
            else if (eat(":!")) { r.tense = 4; r.at = integer(); need(":"); }
            if ((r.punct == '.' || r.punct == '!') && eat("%"))
            {
                do { r.t[r.nt] = number("uok"[r.nt]); r.nt++; } while (r.nt < 3 && eat(";"));
                need("%");
            }
            end();
            r.doubt = doubt;
            return r;
        }
        void end() { ws(); if (i != s.size()) throw Bad("trailing text at " + std::to_string(i) + " of: " + s); }
    };
    inline Task read_task(const std::string &s, bool raw = false) { return Reader(s, raw).task(); }
    inline T read_term(const std::string &s, bool raw = false) { Reader r(s, raw); T t = r.term(); r.end(); return t; }

    // ---- views ----
    inline void names(const T &t, std::set<std::string> &out)
    {
        if (t->k == ATOM) out.insert(t->name);
        else if (t->k == OP) out.insert("^" + t->name);
        for (auto &x : t->a) names(x, out);
    }
    inline T shift(const T &t, char vk, long d)
    {
        if (!t->var) return t;
        if (t->k == VAR) return t->vk == vk ? var(t->vk, "", t->n + d) : t;
        std::vector<T> a;
        for (auto &x : t->a) a.push_back(shift(x, vk, d));
        return t->k == STMT ? stmt(a[0], t->c, a[1]) : cmpd(t->c, a);
    }
    inline void var_ranks(const T &t, std::set<long> out[3])
    {
        if (t->k == VAR) out[Numbering::idx(t->vk)].insert(t->n);
        for (auto &x : t->a) var_ranks(x, out);
    }
    // Is there a renumbering of variables under which a and b are equal?  Searched with backtracking, bounded.
    struct Renaming
    {
        std::map<long, long> f[3], g[3];
        int budget = 20000;
        bool bind(char k, long x, long y)
        {
            auto &F = f[Numbering::idx(k)];
            auto &G = g[Numbering::idx(k)];
            auto i = F.find(x);
            auto j = G.find(y);
            if (i != F.end() || j != G.end()) return i != F.end() && j != G.end() && i->second == y && j->second == x;
            F[x] = y; G[y] = x;
            return true;
        }
    };
    inline bool match(std::vector<std::pair<T, T>> todo, Renaming r, int &budget)
    {
        while (!todo.empty())
        {
            if (--budget < 0) return true; // give up in favour of the code
            auto [a, b] = todo.back();
            todo.pop_back();
            if (a->k != b->k || a->size != b->size || a->c != b->c || a->a.size() != b->a.size()) return false;
            if (a->k == VAR) { if (a->vk != b->vk || !r.bind(a->vk, a->n, b->n)) return false; continue; }
            if (!a->var && !b->var) { if (a->key != b->key) return false; continue; }
            if (a->k == CMPD && con_commutative(a->c))
            {
                // ground components must agree outright; branch on the first open one
                std::vector<T> x, y;
                std::multiset<std::string> gx, gy;
                for (auto &t : a->a) if (t->var) x.push_back(t); else gx.insert(t->key);
                for (auto &t : b->a) if (t->var) y.push_back(t); else gy.insert(t->key);
                if (gx != gy || x.size() != y.size()) return false;
                for (size_t j = 0; j < y.size(); j++)
                {
                    auto t2 = todo;
                    t2.push_back({x[0], y[j]});
                    if (x.size() > 1)
                    {
                        std::vector<T> rx(x.begin() + 1, x.end()), ry;
                        for (size_t k = 0; k < y.size(); k++) if (k != j) ry.push_back(y[k]);
                        t2.push_back({cmpd(a->c, rx), cmpd(b->c, ry)});
                    }
                    if (match(t2, r, budget)) return true;
                }
                return false;
            }
            for (size_t j = 0; j < a->a.size(); j++) todo.push_back({a->a[j], b->a[j]});
        }
        return true;
    }
    inline bool same_up_to_variables(const T &a, const T &b) { int budget = 20000; return match({{a, b}}, Renaming{}, budget); }
}
