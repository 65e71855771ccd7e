// The scheduler and workload generator: one seed -> one complete plan (a list of steps, each of one session).
// The plan is text; the executor needs nothing else to repeat the run.
#pragma once
#include "model.hpp"
#include <cstdio>
#include <functional>

namespace gen
{
#include "corpus.inl"
    struct Rng
    {
        uint64_t s;
        static uint64_t mix(uint64_t z)
        {
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        // The seed is scattered first: neighbouring seeds must not be neighbours in one sequence.
        explicit Rng(uint64_t seed) : s(mix(mix(seed + 0x9e3779b97f4a7c15ull) ^ 0x1234567)) {}
        uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
        bool chance(int pct) { return (int)below(100) < pct; }
        template <class V>
        auto &pick(V &v) { return v[below(v.size())]; }
    };
    inline std::string escape(const std::string &s)
    {
        std::string r;
        for (unsigned char c : s)
            if (c < 0x20 || c >= 0x7f || c == '`') { char b[8]; snprintf(b, sizeof b, "`%02x", c); r += b; }
            else r += (char)c;
        return r;
    }
    inline std::string unescape(const std::string &s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); i++)
            if (s[i] == '`' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
            else r += s[i];
        return r;
    }

    struct Profile
    {
        std::string name;
        std::map<std::string, int> w; // weight of each kind of step
        int steps_lo = 8, steps_hi = 40;
        int var_pct = 25;      // chance of a variable at a leaf
        int set_pct = 0;       // extra weight of sets and of merging connectors
        int deep_pct = 3;      // chance of a very deep or long line
        int oom_pct = 0;       // chance that a step runs short of memory
        int stride_pct = 30, low_pct = 10, junk_pct = 60, input_pct = 0;
        int passes = 1;
        bool py = false;
        bool clock = false;
        std::set<std::string> tags;
    };
    Profile profile(const std::string &id);

    class Gen
    {
    public:
        Rng r;
        Profile p;
        std::vector<std::string> out;
        Gen(uint64_t seed, const Profile &p) : r(seed), p(p) {}

        // ---- text of terms ----
        std::vector<std::string> pool;   // names of this plan
        std::vector<std::string> vpool;  // names of its variables
        std::vector<std::string> recent; // subterms of the line being written
        std::vector<std::string> history;// terms of earlier lines
        int pvar = 25;
        std::string sp() { return r.chance(15) ? " " : r.chance(5) ? "  " : ""; }
        std::string name()
        {
            return r.pick(pool);
        }
        void make_pool()
        {
            static const char *plain[] = {"a", "b", "c", "d", "cat", "dog", "x", "y", "z9", "0", "12", "A", "B", "SELF", "go", "it's", "under_score", "0x10", "_", "a`b"};
            static const char *odd[] = {"\"hello world\"", "\"{}\"", "\"100%\"", "\"a, b\"", "\"<a --> b>.\"", "\"q\\\"x\"", "\"{0}{1}\"", "\"%s%n\"", "\"\"", "\" \"", "\"$x\"", "\"^go\"", "\"(\"", "\"a}b{\""};
            int n = r.range(2, 9);
            for (int i = 0; i < n; i++)
                if (r.chance(14)) pool.push_back(odd[r.below(sizeof odd / sizeof *odd)]);
                else if (r.chance(8)) pool.push_back(long_name());
                else if (!pool.empty() && r.chance(14)) pool.push_back(vary(r.pick(pool)));
                else pool.push_back(plain[r.below(sizeof plain / sizeof *plain)]);
            // names that agree in all but a little, and much of it
            if (r.chance(18)) for (auto &x : family((int)r.range(2, 5))) pool.push_back(x);
            for (auto x : {"x", "y", "1", "2"}) vpool.push_back(x);
            if (r.chance(25)) for (auto x : {"zz", "\"v w\"", "X", "x1", "01", "\"x\"", "_"}) if (r.chance(60)) vpool.push_back(x);
            if (r.chance(20)) { auto f = family((int)r.range(2, 5)); if (r.chance(60)) vpool = f; else vpool.insert(vpool.end(), f.begin(), f.end()); }
            if (r.chance(6)) for (int i = 0, m = (int)r.range(10, 40); i < m; i++) vpool.push_back("v" + std::to_string(i));
        }
        // another name that differs in one place
        std::string vary(std::string s)
        {
            bool q = s[0] == '"';
            if (q && (s.size() < 3 || s.find('\\') != std::string::npos)) return s;
            size_t lo = q, hi = s.size() - q; // [lo, hi)
            size_t at = r.chance(40) ? hi - 1 : lo + r.below(hi - lo);
            switch (r.below(4))
            {
            case 0: s.insert(r.chance(50) ? hi : at, 1, "_0az'"[r.below(5)]); break;
            case 1: if (isalnum((unsigned char)s[at])) s[at] = (char)(isdigit((unsigned char)s[at]) ? '0' + (s[at] - '0' + 1) % 10 : s[at] ^ 0x20); break;
            case 2: if (isalnum((unsigned char)s[at])) s[at] = "mM5"[r.below(3)]; break;
            default: s.insert(lo, 1, "0_a"[r.below(3)]);
            }
            return s;
        }
        std::vector<std::string> family(int n)
        {
            static const int len[] = {3, 4, 7, 8, 11, 12, 14, 15, 16, 22, 23, 30, 31, 32, 47, 63, 64, 65, 127, 128, 255, 256, 600};
            std::string s;
            int k = len[r.below(sizeof len / sizeof *len)];
            for (int i = 0; i < k; i++) s += (char)('a' + r.below(26));
            std::vector<std::string> v;
            if (r.chance(30)) v.push_back(s);
            while ((int)v.size() < n)
                if (r.chance(70)) v.push_back(s + (r.chance(50) ? std::string(1, (char)('a' + r.below(26))) : std::to_string(r.below(200))));
                else if (r.chance(50)) { std::string t = s; t[r.below(t.size())] = (char)('A' + r.below(26)); v.push_back(t); }
                else v.push_back(std::string(1, (char)('A' + r.below(26))) + s);
            return v;
        }
        std::string long_name()
        {
            std::string s;
            int n = r.chance(20) ? r.range(100, 3000) : r.range(10, 70);
            for (int i = 0; i < n; i++) s += (char)('a' + r.below(26));
            return s;
        }
        std::string var()
        {
            static const char *k[] = {"$", "#", "?"};
            return std::string(k[r.below(3)]) + r.pick(vpool);
        }
        std::string whole(long lo, long hi, long ordinary) // of the integers in [lo, hi], mostly ones below `ordinary`
        {
            long v;
            if (r.chance(75)) v = r.range(0, ordinary);
            else if (r.chance(40)) { static const long e[] = {9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, 16777216, 16777217, 33554433, 99999999, 1000000007, 2147483645, 2147483646, 2147483647}; v = e[r.below(sizeof e / sizeof *e)]; }
            else v = r.chance(50) ? r.range(0, 2147483647) : r.range(0, 1L << r.range(1, 31));
            bool neg = lo < 0 && r.chance(20);
            v = std::min(v, hi);
            std::string s = std::to_string(v);
            if (r.chance(6)) s = std::string((size_t)r.range(1, 3), '0') + s;
            return (neg ? "-" : "") + s;
        }
        // (the hashes of +-127, +-126 and +-129 are those of $, # and ? variables)
        std::string interval() { if (r.chance(15)) { static const char *v[] = {"+-127", "+-126", "+-129"}; return v[r.below(3)]; } return "+" + sp() + whole(-2147483647, 2147483647, 9); }
        std::string leaf(bool nonvar = false)
        {
            if (!nonvar && r.chance(pvar)) return var();
            if (r.chance(6)) return interval();
            if (r.chance(4)) return "^" + name();
            return name();
        }
        std::string comma() { return sp() + "," + (r.chance(60) ? " " : sp()); }
        std::string list(int lo, int hi, int depth)
        {
            int n = r.range(lo, hi);
            std::string s;
            for (int i = 0; i < n; i++) s += (i ? comma() : "") + term(depth - 1);
            return s;
        }
        std::string remember(std::string t) { if (t.size() < 200) recent.push_back(t); return t; }
        std::string term(int depth, bool nonvar = false)
        {
            if (!nonvar && !recent.empty() && r.chance(18)) return r.pick(recent);
            if (!nonvar && !history.empty() && r.chance(8)) return r.pick(history);
            if (depth <= 0 || r.chance(28)) return leaf(nonvar);
            return remember(complex(depth));
        }
        std::string operand(int depth) // of a difference: a term, or an infix expression without its parentheses
        {
            static const char *multi[] = {"&&", "||", "&|", "&/", "|", "&", "*"};
            std::string s = term(depth - 1);
            if (!r.chance(15)) return s;
            const char *c = multi[r.below(7)];
            for (int i = r.range(1, 2); i > 0; i--) s += std::string(" ") + c + " " + term(depth - 1);
            return s;
        }
        std::string set(int depth, bool ext)
        {
            return (ext ? "{ " : "[ ") + list(1, r.chance(10) ? 8 : 4, depth) + (ext ? " }" : " ]");
        }
        std::string complex(int depth)
        {
            int k = (int)r.below(100);
            if (r.chance(p.set_pct))
            {
                if (r.chance(45)) return set(depth, r.chance(50));
                static const char *m[] = {"&", "|", "&", "|", "&&", "||", "&|"};
                std::string s = "(" + std::string(m[r.below(7)]) + ",";
                int n = r.range(2, 4);
                for (int i = 0; i < n; i++) s += (i ? ", " : " ") + (r.chance(60) ? set(depth - 1, r.chance(55)) : term(depth - 1));
                return s + ")";
            }
            if (k < 30) return statement(depth);
            if (k < 42) return set(depth, r.chance(50));
            static const char *multi[] = {"&&", "||", "&|", "&/", "|", "&"};
            if (k < 58)
                return "(" + sp() + multi[r.below(6)] + comma() + list(2, r.chance(10) ? 7 : 4, depth) + sp() + ")";
            if (k < 68)
            {
                const char *c = r.chance(30) ? "*" : multi[r.below(6)];
                std::string s = "(" + sp() + term(depth - 1);
                for (int i = r.range(1, 3); i > 0; i--) s += std::string(" ") + c + " " + term(depth - 1);
                return s + sp() + ")";
            }
            if (k < 74) return "(*" + comma() + list(1, 4, depth) + ")";
            if (k < 79) return "(" + sp() + list(2, 4, depth) + sp() + ")";
            if (k < 84) return "(" + std::string(r.chance(50) ? "-" : "~") + comma() + operand(depth) + comma() + operand(depth) + ")";
            if (k < 87) return "(" + operand(depth) + (r.chance(50) ? " - " : " ~ ") + operand(depth) + ")";
            if (k < 92) return "(" + std::string(r.chance(50) ? "/" : "\\") + comma() + list(1, 3, depth) + ")";
            if (k < 94) return "-- " + term(depth - 1);
            if (k < 96) return "(--" + comma() + term(depth - 1) + ")";
            if (k < 98) return "(^" + name() + (r.chance(85) ? comma() + list(1, 3, depth) : "") + ")";
            return name() + (r.chance(20) ? " (" : "(") + list(1, 3, depth) + ")";
        }
        std::string statement(int depth)
        {
            std::string c = model::COP[r.chance(45) ? 0 : r.below(model::NCOP)];
            bool angle = r.chance(75);
            return (angle ? "<" : "(") + sp() + term(depth - 1) + " " + c + " " + term(depth - 1) + sp() + (angle ? ">" : ")");
        }
        std::string deep()
        {
            int n = r.chance(50) ? r.range(20, 90) : r.range(90, 500);
            int k = (int)r.below(6);
            std::string a, b;
            for (int i = 0; i < n; i++)
                switch (k)
                {
                case 0: a += "{"; b = "}" + b; break;
                case 1: a += "("; b = (r.chance(90) ? ",b)" : ",#y)") + b; break;
                case 2: a += "<"; b = (i % 3 ? " --> b>" : " ==> c>") + b; break;
                case 3: a += "-- "; break;
                case 4: a += "(&/, +" + std::to_string(i) + ", "; b = ")" + b; break;
                default: a += "(/, r, "; b = ")" + b; break;
                }
            return a + (r.chance(30) ? "#y" : "a") + b;
        }
        std::string wide()
        {
            int n = r.range(20, 400);
            static const char *o[] = {"{", "[", "(&&, ", "(*, ", "(&/, ", "(&, "};
            static const char *c[] = {"}", "]", ")", ")", ")", ")"};
            int k = (int)r.below(6);
            std::string s = o[k];
            bool vars = r.chance(25); // many variables
            for (int i = 0; i < n; i++) s += (i ? "," : "") + (vars && r.chance(80) ? std::string(1, "$#?"[r.below(r.chance(50) ? 3 : 1)]) + "v" + std::to_string(r.chance(90) ? i : r.below(i + 1)) : r.chance(20) ? name() : r.chance(10) ? std::string("#v") + std::to_string(r.below(9)) : "w" + std::to_string(i % 97));
            return s + c[k];
        }
        std::string num(bool open) // in (0,1) or [0,1]
        {
            if (!open && r.chance(20)) return r.chance(50) ? "1" : r.chance(50) ? "0" : r.chance(50) ? "1.0" : "1.";
            char b[16];
            if (r.chance(5)) return (r.chance(80) ? "0." : ".") + std::string((size_t)r.range(1, r.chance(80) ? 8 : 40), r.chance(50) ? '0' : '9') + (char)('1' + r.below(9)); // close to an edge
            int digits = r.chance(70) ? 2 : (int)r.range(1, 8);
            long most = 1;
            for (int i = 0; i < digits; i++) most *= 10;
            snprintf(b, sizeof b, "%s.%0*ld", r.chance(80) ? "0" : "", digits, r.range(1, most - 1));
            if (open && atof(b) > 0.99999) return "0.99999";
            return b;
        }
        std::string budget()
        {
            if (!r.chance(25)) return "";
            std::string s = "$" + num(false);
            if (r.chance(70)) { s += ";" + num(true); if (r.chance(70)) s += ";" + num(false); }
            return s + "$" + (r.chance(80) ? " " : "");
        }
        std::string tail(bool timed)
        {
            char pn = ".....???!!@"[r.below(11)];
            std::string s(1, pn);
            if (r.chance(timed ? 75 : 25))
            {
                int k = (int)r.below(7);
                s += r.chance(80) ? " " : "";
                s += k < 2 ? ":|:" : k < 4 ? ":/:" : k < 6 ? ":\\:" : ":!" + sp() + whole(-2147483647, 2147483647, 60) + sp() + ":";
            }
            if ((pn == '.' || pn == '!') && r.chance(40))
            {
                s += (r.chance(80) ? " " : "") + std::string("%") + num(false);
                if (r.chance(75)) { s += ";" + num(true); if (r.chance(15)) s += ";" + std::to_string(r.chance(80) ? r.range(1, 30) : r.chance(50) ? r.range(1, 16777216) : r.range(1, 2000000000)); }
                s += "%";
            }
            return s;
        }
        std::string body()
        {
            recent.clear();
            if (r.chance(p.deep_pct)) return r.chance(60) ? deep() : wide();
            pvar = r.chance(45) ? 0 : p.var_pct;
            std::string t = r.chance(6) ? leaf(true) : r.chance(55) ? statement((int)r.range(1, 3)) : complex((int)r.range(1, 4));
            if (t.size() > 6000) return "<a --> b>";
            if (r.chance(20) && t.size() < 120) history.push_back(t);
            if (history.size() > 6) history.erase(history.begin() + (long)r.below(history.size()));
            return t;
        }
        std::string line() { if (r.chance(5)) return CORPUS[r.below(sizeof CORPUS / sizeof *CORPUS)]; return (r.chance(5) ? " " : "") + budget() + body() + sp() + tail(p.clock); }
        std::string bad_line()
        {
            std::string l = "<a --> b>.";
            switch (r.below(14))
            {
            case 0: return budget() + safe() ;                        // no punctuation
            case 1: { std::string t = line(); size_t i = r.below(t.size() + 1); return t.substr(0, i) + "\xc3\xa9" + t.substr(i); }
            case 2: return "<" + name() + " --> >" + tail(false);
            case 3: return "(&&, " + name() + ")" + tail(false);
            case 4: return "<" + safe() + " --> " + name() + tail(false); // unclosed
            case 5: return "{" + name() + ", " + safe() + tail(false);
            case 6: return "(" + name() + ")" + tail(false);
            case 7: return "$x" + tail(false);
            case 8: return "<" + name() + " --> (&/, " + safe() + ", +" + std::string(r.chance(50) ? "-" : "") + "99999999999)>" + tail(false);
            case 9: return "<" + safe() + " --> " + name() + ">. :!" + std::string(r.chance(50) ? "-" : "") + "4000000000: ";
            case 10: return "";
            case 11: return budget() + body() + ". :!" + (r.chance(50) ? "-" : "") + "4000000000:"; // what the line had before its number
            case 12: return budget() + "(&/, " + body() + ", " + (r.chance(50) ? "+" : "+-") + "99999999999)" + tail(p.clock);
            default: return "<" + safe() + " --> " + name() + ">> " + tail(false);
            }
        }
        std::string safe() { return "<" + name() + " --> " + (r.chance(40) ? "{" + name() + "}" : r.chance(30) ? "(*, " + std::string(1, "$#?"[r.below(3)]) + "x, " + name() + ")" : "fresh" + std::to_string(r.below(50))) + ">"; }
        std::string corrupt(std::string l)
        {
            static const char *tok[] = {"<", ">", "(", ")", "{", "}", "[", "]", "-->", "--", "-", "&&", "&", "|", "&/", "*", ",", ".", "?", "!", "@", "$", "#", "%", ";", ":", ":|:", ":!", "+", "^", "\"", "\\", "/", "=", "~", " ", "\t", "a", "0.5", "9", "{--", "--]", "\n", "%1.0;0.9%", "$0.5$", "=\\>", "<|>", "99999999999999999999999"};
            int n = (int)r.range(1, 3);
            for (int i = 0; i < n; i++)
            {
                size_t at = r.below(l.size() + 1);
                switch (r.below(8))
                {
                case 0: l = l.substr(0, at); break;
                case 1: if (!l.empty()) l.erase(r.below(l.size()), 1 + r.below(3)); break;
                case 2: if (!l.empty()) l[r.below(l.size())] ^= (char)(1 << r.below(7)); break;
                case 3: l.insert(at, tok[r.below(sizeof tok / sizeof *tok)]); break;
                case 4: l.insert(at, tok[r.below(sizeof tok / sizeof *tok)]); break;
                case 5: { size_t k = 1 + r.below(6); l.insert(at, l.substr(r.below(l.size() + 1), k)); break; }
                case 6: l.insert(at, 1, (char)r.below(256)); break;
                default: { std::string o = line(); l = l.substr(0, at) + o.substr(r.below(o.size())); break; }
                }
            }
            if (l.size() > 8192) l.resize(8192);
            return l;
        }
        std::string garbage()
        {
            std::string s;
            int n = (int)(r.chance(10) ? r.range(200, 6000) : r.range(0, 40));
            int mode = (int)r.below(3);
            static const char *tok[] = {"<", ">", "(", ")", "{", "}", "[", "]", "-->", "--", "&&", ",", ".", "?", "a", "bc", "$x", "#y", "%", ";", ":", "+5", "^go", "\"q\"", " "};
            char rep = (char)r.below(128);
            for (int i = 0; i < n; i++)
                s += mode == 0 ? std::string(1, (char)r.below(256)) : mode == 1 ? tok[r.below(sizeof tok / sizeof *tok)] : std::string(1, r.chance(98) ? rep : (char)r.below(128));
            if (s.size() > 8192) s.resize(8192);
            return nested_too_deep(s) ? s.substr(0, 400) : s;
        }
        static bool nested_too_deep(const std::string &s)
        {
            int d = 0;
            for (char c : s) if (c == '(' || c == '<' || c == '{' || c == '[' || c == '-') d++;
            return d > 500;
        }

        // ---- steps ----
        struct Obj
        {
            int id;
            char kind; // t task, e term, s sentence, b bag, 2 atom of a private interpreter, p python object
            model::T t;
            char pk = 0; // python: t task, e term, s sentence
        };
        std::vector<Obj> objs;
        int next_id = 1;
        int sess = 0;
        bool parser_up[4] = {true, false, false, false};
        int emit(const std::string &s, const std::string &text = "", bool has_text = false)
        {
            int id = next_id++;
            std::string l = std::to_string(id) + " s" + std::to_string(sess) + " " + s;
            if (has_text) l += " | " + escape(text);
            out.push_back(l);
            return id;
        }
        std::vector<size_t> of(const char *kinds)
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++)
                for (const char *k = kinds; *k; k++) if (objs[i].kind == *k) v.push_back(i);
            return v;
        }
        Obj *any(const char *kinds)
        {
            auto v = of(kinds);
            return v.empty() ? nullptr : &objs[v[r.below(v.size())]];
        }
        int a_parser()
        {
            std::vector<int> v;
            for (int i = 0; i < 4; i++) if (parser_up[i]) v.push_back(i);
            return r.pick(v);
        }
        void oom()
        {
            if (!r.chance(p.oom_pct)) return;
            long n = r.chance(70) ? r.range(0, 40) : r.range(0, 400);
            emit("oom " + std::to_string(n) + " " + (r.chance(30) ? "1" : "0"));
        }
        model::T term_of(const std::string &line)
        {
            try { return model::read_task(line).term; }
            catch (model::Bad &) { return nullptr; }
        }
        void step(const std::string &op);
        void plan();
    };
}
