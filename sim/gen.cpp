#include "gen.hpp"

namespace gen
{
    using namespace model;

    void Gen::step(const std::string &op)
    {
        auto term_obj = [&](bool vars = true) -> Obj *
        {
            auto v = of("e");
            std::vector<size_t> ok;
            for (auto i : v) if (vars || !objs[i].t->var) ok.push_back(i);
            return ok.empty() ? nullptr : &objs[ok[r.below(ok.size())]];
        };
        auto add = [&](int id, char k, T t, char pk = 0) { objs.push_back(Obj{id, k, t, pk}); };
        auto drop_at = [&](size_t i) { objs.erase(objs.begin() + (long)i); };

        // now and then a line comes through standard input: in pieces (1), with a line behind it (2), piece sizes (4 ...)
        auto way = [&] { return p.input_pct && r.chance(p.input_pct) ? " " + std::to_string(2 + (long)r.below(94)) : ""; };
        if (op == "parse")
        {
            std::string l = line();
            T t = term_of(l);
            if (!t) { fprintf(stderr, "SIM: generator wrote a line its reader rejects: %s\n", l.c_str()); exit(95); }
            oom();
            int id = emit("parse " + std::to_string(a_parser()) + way(), l, true);
            add(id, 't', t);
        }
        else if (op == "again") // the text of an earlier object, possibly reworded
        {
            Obj *o = any("te");
            if (!o || o->t->key.size() > 2000) return;
            emit("reparse " + std::to_string(o->id) + " " + std::to_string(a_parser()));
        }
        else if (op == "raw")
        {
            std::string l = r.chance(25) ? garbage() : corrupt(line());
            int id = emit("raw " + std::to_string(a_parser()) + way(), l, true);
            (void)id;
        }
        else if (op == "bad") { oom(); emit("bad " + std::to_string(a_parser()) + way(), bad_line(), true); }
        else if (op == "drop")
        {
            if (objs.empty()) return;
            size_t i = r.below(objs.size());
            emit("drop " + std::to_string(objs[i].id));
            drop_at(i);
        }
        else if (op == "copy")
        {
            Obj *o = any("teb");
            if (!o) return;
            Obj c = *o;
            int id = emit("copy " + std::to_string(c.id));
            add(id, c.kind, c.t);
        }
        else if (op == "assign")
        {
            Obj *a = any("te");
            if (!a) return;
            auto v = of(a->kind == 't' ? "t" : "e");
            Obj *b = &objs[v[r.below(v.size())]];
            emit("assign " + std::to_string(a->id) + " " + std::to_string(b->id));
            a->t = b->t;
        }
        else if (op == "swap")
        {
            Obj *a = any("e"), *b = any("e");
            if (!a) return;
            emit("swap " + std::to_string(a->id) + " " + std::to_string(b->id));
            std::swap(a->t, b->t);
        }
        else if (op == "sub")
        {
            Obj *o = any("te");
            if (!o) return;
            T t = o->t;
            std::string path;
            while (!t->a.empty() && (path.empty() || r.chance(55)))
            {
                size_t i = r.below(t->a.size());
                path += (path.empty() ? "" : ".") + std::to_string(i);
                t = t->a[i];
            }
            if (o->kind == 'e' && path.empty()) return;
            int id = emit("sub " + std::to_string(o->id) + " " + (path.empty() ? "-" : path));
            add(id, 'e', t);
        }
        else if (op == "atom") { oom(); auto n = name(); int id = emit("atom", n, true); add(id, 'e', atom(n)); }
        else if (op == "anon") { int id = emit("anon"); add(id, 'e', atom("@" + std::to_string(id))); }
        else if (op == "atom2") { int id = emit("atom2", name(), true); add(id, '2', atom("2")); }
        else if (op == "stmt")
        {
            Obj *a = term_obj(), *b = term_obj();
            if (!a || a->t->size + b->t->size > 60) return;
            int c;
            do c = (int)(r.chance(50) ? 0 : r.below(NCOP)); while (c == INST || c == PROP || c == INSTPROP);
            T t = stmt(a->t, c, b->t);
            oom();
            int id = emit("stmt " + std::to_string(c) + " " + std::to_string(a->id) + " " + std::to_string(b->id) + " " + std::to_string(r.below(3)));
            add(id, 'e', t);
        }
        else if (op == "cmpd")
        {
            if (of("e").empty()) return;
            int c = r.chance(p.set_pct) ? (r.chance(50) ? EXTINT : INTINT) : (int)r.below(NCON);
            int n = c == NEG ? 1 : c == EXTDIFF || c == INTDIFF ? 2 : c == EXTSET || c == INTSET || c == PROD ? (int)r.range(1, 4) : (int)r.range(2, 4);
            std::vector<T> a;
            std::string ids;
            int size = 0;
            for (int i = 0; i < n; i++) { Obj *o = term_obj(); a.push_back(o->t); ids += " " + std::to_string(o->id); size += o->t->size; }
            if (size > 60) return;
            T t = make(c, a);
            oom();
            int id = emit("cmpd " + std::to_string(c) + " " + std::to_string(r.below(6)) + ids);
            add(id, 'e', t);
        }
        else if (op == "clone") { Obj *o = any("e"); if (!o) return; T t = o->t; oom(); int id = emit("clone " + std::to_string(o->id)); add(id, 'e', t); }
        else if (op == "rename")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'e' && objs[i].t->var) v.push_back(i);
            if (v.empty()) return;
            Obj &o = objs[v[r.below(v.size())]];
            int id = o.id; T t0 = o.t;
            if (r.chance(60)) { int nid = emit("clone " + std::to_string(id)); add(nid, 'e', t0); id = nid; }
            char k = "$#?"[r.below(3)];
            emit("rename " + std::to_string(id) + " " + std::string(1, k) + " " + std::to_string(r.range(1, 9)));
        }
        else if (op == "render") { Obj *o = any("te"); if (!o) return; oom(); emit("render " + std::to_string(o->id) + " " + (r.chance(40) ? "1" : "0")); }
        else if (op == "eq") emit("eq");
        else if (op == "sent")
        {
            Obj *o = term_obj();
            if (!o) return;
            T t = o->t;
            int id = emit("sent " + std::to_string(o->id) + " " + std::to_string(r.below(4)) + " " + std::to_string(r.below(8)) + " " + std::to_string(r.range(1, 999)) + " " + std::to_string(r.range(1, 999)));
            add(id, 's', t);
        }
        else if (op == "clock")
        {
            long m = r.chance(60) ? r.range(0, 12) : r.chance(60) ? r.range(0, 2000) : r.chance(60) ? r.range(0, 1 << 30) : r.range(0, 2147480000);
            emit(r.chance(70) ? "tick " + std::to_string(m > 100000 ? m % 100000 : m) : "clock " + std::to_string(m));
        }
        else if (op == "knob") emit("knob " + std::to_string(r.below(14)) + " " + std::to_string(r.range(1, 999)));
        else if (op == "weigh")
        {
            Obj *o = any("t");
            if (!o) return;
            std::string s = "weigh " + std::to_string(o->id) + " " + std::to_string(r.below(2));
            for (int i = 0; i < 3; i++) s += " " + std::to_string(r.chance(60) ? r.range(0, 1000) : r.chance(50) ? r.range(-3000, 4000) : r.chance(50) ? 0 : 1000);
            emit(s);
        }
        else if (op == "conf")
        {
            if (r.chance(60)) emit("dur " + std::to_string(r.chance(70) ? r.range(1, 10) : r.range(1, 1000)));
            else emit("maxbase " + std::to_string(r.range(2, 8)));
        }
        else if (op == "maxbase") emit("maxbase " + std::to_string(r.chance(60) ? r.range(2, 8) : r.chance(80) ? r.range(8, 40) : r.range(0, 1)));
        else if (op == "inputs")
        {
            static const int K[] = {8, 15, 16, 16, 24, 31, 32, 32, 33, 48};
            emit("inputs " + std::to_string(K[r.below(10)]) + " " + std::to_string(r.below(40)));
        }
        else if (op == "merge")
        {
            Obj *a = any("ts"), *b = any("ts");
            if (!a) return;
            oom();
            emit("merge " + std::to_string(a->id) + " " + std::to_string(b->id) + " " + std::to_string(r.below(3)));
        }
        else if (op == "base")
        {
            std::string s;
            for (int k = 0; k < 2; k++)
            {
                int n = (int)r.range(0, 9);
                for (int i = 0; i < n; i++) s += " " + std::to_string(r.below(12));
                if (!k) s += " /";
            }
            emit("base" + s);
        }
        else if (op == "parser")
        {
            int i = (int)r.range(1, 3);
            parser_up[i] = !parser_up[i];
            emit((parser_up[i] ? "newparser " : "delparser ") + std::to_string(i));
        }
        else if (op == "reset") { emit("reset"); objs.erase(std::remove_if(objs.begin(), objs.end(), [](Obj &o) { return o.kind == 'p'; }), objs.end()); for (auto &o : objs) o.kind = 'o'; }
        else if (op == "bag") { int id = emit("bag"); add(id, 'b', nullptr); }
        else if (op == "bagop")
        {
            Obj *b = any("b");
            if (!b) { int id = emit("bag"); add(id, 'b', nullptr); b = &objs.back(); }
            Obj *e = any("e");
            int k = (int)r.below(8);
            std::string s = std::to_string(b->id);
            if (k < 4 && e) emit("push " + s + " " + std::to_string(e->id) + " " + std::to_string(r.below(4)));
            else if (k == 4) emit("erase " + s + " " + std::to_string(r.below(8)));
            else if (k == 5) emit("put " + s + " " + (e ? std::to_string(e->id) : "0") + " " + std::to_string(r.below(8)));
            else if (k == 6) emit("reverse " + s);
            else emit(r.chance(30) ? "clear " + s : "pop " + s);
        }
        else if (op == "churn")
        {
            int n = (int)r.range(2, 12);
            emit("churn " + std::to_string(n) + " " + std::to_string(a_parser()), r.chance(50) ? "<" + name() + " --> " + name() + ">." : body() + ".", true);
        }
        else if (op == "fill") // many distinct names at once, then gone again
        {
            emit("fill " + std::to_string(r.range(20, 300)) + " " + std::to_string(a_parser()) + " " + std::to_string(r.below(4)));
        }
        else if (op == "setop")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++)
                if (objs[i].kind == 'e' && objs[i].t->k == CMPD && con_commutative(objs[i].t->c)) v.push_back(i);
            if (v.size() < 2)
            {
                // make some operands
                for (int i = 0; i < 3; i++)
                {
                    recent.clear(); pvar = p.var_pct;
                    std::string l = set(2, r.chance(60)) + ".";
                    T t = term_of(l);
                    int a = emit("parse " + std::to_string(a_parser()) + way(), l, true);
                    int b = emit("sub " + std::to_string(a) + " -");
                    emit("drop " + std::to_string(a));
                    add(b, 'e', t);
                    v.push_back(objs.size() - 1);
                }
            }
            int n = (int)r.range(r.chance(5) ? 0 : 1, 4);
            std::string s = "setop " + std::to_string(r.below(3)) + " " + std::to_string(r.below(4));
            for (int i = 0; i < n; i++) s += " " + std::to_string(objs[v[r.below(v.size())]].id);
            emit(s);
        }
        else if (op == "force" || op == "terms")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'e' && objs[i].t->size <= 40 && (op == "terms" || !objs[i].t->a.empty())) v.push_back(i);
            if (v.empty()) return;
            std::string ids;
            int n = (int)r.range(op == "terms" ? 1 : 3, op == "terms" ? 6 : 7);
            for (int i = 0; i < n; i++) ids += " " + std::to_string(objs[r.pick(v)].id);
            emit(op == "force" ? "force" + ids : "terms " + std::to_string(r.below(12)) + " " + std::to_string(r.below(8)) + ids);
        }
        else if (op == "index" || op == "table")
        {
            std::string s = op;
            for (int i = (int)r.range(8, 40); i > 0; i--) s += " " + std::to_string(r.below(1000));
            emit(s);
        }
        else if (op == "renum")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'e' && objs[i].t->var) v.push_back(i);
            if (v.empty()) return;
            std::string s = "renum " + std::to_string(objs[r.pick(v)].id);
            for (int i = (int)r.range(3, 12); i > 0; i--) s += " " + std::to_string(r.chance(80) ? r.range(0, 6) : r.range(0, 100000));
            emit(s);
        }
        else if (op == "rebuild")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'e' && (objs[i].t->var || r.chance(10))) v.push_back(i);
            if (v.empty()) return;
            oom();
            emit("rebuild " + std::to_string(objs[r.pick(v)].id));
        }
        else if (op == "collide")
        {
            int k = next_id;
            std::string n = std::to_string(k);
            int kind = (int)r.below(7);
            int id = emit("collide " + std::to_string(kind) + " ca" + n + " cb" + n + " cc" + n + " cd" + n);
            // ids id+1 and id+2 are the two terms
            next_id += 2;
            static const int cop[] = {INH, SIM, IMP};
            int con = kind == 3 ? PROD : kind == 4 ? EXTSET : kind == 6 ? EXTIMG : SEQ;
            T x = atom("ca" + n), y = atom("cb" + n), z = atom("cc" + n), w = kind == 5 ? y : atom("cd" + n);
            add(id + 1, 'e', kind < 3 ? stmt(x, cop[kind], y) : make(con, {x, y}));
            add(id + 2, 'e', kind < 3 ? stmt(z, cop[kind], w) : make(kind == 5 ? (int)PROD : con, {z, w}));
        }
        else if (op == "ival")
        {
            long x = r.chance(60) ? r.range(-9, 20) : r.range(-1000000000, 1000000000), y = r.chance(60) ? r.range(-9, 20) : r.range(-1000000000, 1000000000);
            emit("ival " + std::to_string(x) + " " + std::to_string(y));
        }
        else if (op == "twin")
        {
            std::string n = "tw" + std::to_string(next_id);
            int id = emit("twin " + n);
            next_id += 2;
            add(id + 1, 'e', atom(n));
            // the interval's value is found at run time; it is only used inside the step
        }
        else if (op == "parse_oomm")
            emit("parse_oomm " + std::to_string(r.range(0, r.chance(50) ? 12 : 60)) + " " + std::to_string(a_parser()), r.chance(85) ? line() : bad_line(), true);
        // ---- Python ----
        else if (op == "py_parse")
        {
            std::string l = line();
            T t = term_of(l);
            oom();
            int id = emit("py_parse", l, true);
            add(id, 'p', t, 't');
        }
        else if (op == "py_bad") emit("py_bad", bad_line(), true);
        else if (op == "py_raw") emit("py_raw", r.chance(30) ? garbage() : corrupt(line()), true);
        else if (op == "py_atom") { auto n = name(); int id = emit("py_atom", n, true); add(id, 'p', atom(n), 'e'); }
        else if (op == "py_anon") { int id = emit("py_anon"); add(id, 'p', atom("@" + std::to_string(id)), 'e'); }
        else if (op == "py_attr")
        {
            auto v = of("p");
            if (v.empty()) return;
            Obj o = objs[r.pick(v)];
            if (o.pk == 't')
            {
                if (r.chance(30)) { int id = emit("py_attr " + std::to_string(o.id) + " sentence"); add(id, 'p', o.t, 's'); }
                else { int id = emit("py_attr " + std::to_string(o.id) + " term"); add(id, 'p', o.t, 'e'); }
            }
            else if (o.pk == 'e')
            {
                const char *at[] = {"subject", "predicate", "copula", "terms"};
                int k = (int)r.below(4);
                int id = emit("py_attr " + std::to_string(o.id) + " " + at[k]);
                if (k < 2 && o.t->k == STMT) add(id, 'p', o.t->a[(size_t)k], 'e');
                if (k == 3 && (o.t->k == STMT || o.t->k == CMPD)) add(id, 'p', o.t, 'i');
            }
            else if (o.pk == 'i') emit("py_next " + std::to_string(o.id));
        }
        else if (op == "py_next") { std::vector<size_t> v; for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && objs[i].pk == 'i') v.push_back(i); if (!v.empty()) emit("py_next " + std::to_string(objs[r.pick(v)].id)); }
        else if (op == "py_stmt" || op == "py_cmpd")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && objs[i].pk == 'e') v.push_back(i);
            if (v.empty()) return;
            if (op == "py_stmt")
            {
                Obj a = objs[r.pick(v)], b = objs[r.pick(v)];
                if (a.t->size + b.t->size > 60) return;
                int c;
                do c = (int)(r.chance(50) ? 0 : r.below(NCOP)); while (c == INST || c == PROP || c == INSTPROP);
                oom();
                int id = emit("py_stmt " + std::to_string(c) + " " + std::to_string(a.id) + " " + std::to_string(b.id));
                add(id, 'p', stmt(a.t, c, b.t), 'e');
            }
            else
            {
                int c = (int)r.below(NCON);
                int n = c == NEG ? 1 : c == EXTDIFF || c == INTDIFF ? 2 : c == EXTSET || c == INTSET || c == PROD ? (int)r.range(1, 4) : (int)r.range(2, 4);
                if (r.chance(4)) n = 0;
                std::vector<T> a;
                std::string ids;
                int size = 0;
                for (int i = 0; i < n; i++) { Obj &o = objs[r.pick(v)]; a.push_back(o.t); ids += " " + std::to_string(o.id); size += o.t->size; }
                if (size > 60) return;
                oom();
                int id = emit("py_cmpd " + std::to_string(c) + ids);
                if (n) add(id, 'p', make(c, a), 'e');
            }
        }
        else if (op == "py_sent")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && objs[i].pk == 'e') v.push_back(i);
            if (v.empty()) return;
            Obj o = objs[r.pick(v)];
            std::vector<size_t> w;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && objs[i].pk == 'T') w.push_back(i);
            int id = emit("py_sent " + std::to_string(o.id) + " " + std::to_string(r.below(4)) + " " + std::to_string(r.below(2)) + (w.empty() ? "" : " " + std::to_string(objs[r.pick(w)].id)));
            add(id, 'p', o.t, 's');
        }
        else if (op == "py_num")
        {
            bool t = r.chance(65);
            std::string s = std::string("py_num ") + (t ? "0 " : "1 ") + std::to_string(r.below(8));
            for (int i = 0; i < 3; i++) s += " " + std::to_string(t && i == 2 ? r.range(1, 5000) : r.range(0, 1000));
            int id = emit(s);
            add(id, 'p', ival(0), t ? 'T' : 'B');
        }
        else if (op == "py_set")
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && (objs[i].pk == 'T' || objs[i].pk == 'B')) v.push_back(i);
            if (!v.empty()) emit("py_set " + std::to_string(objs[r.pick(v)].id) + " " + std::to_string(r.below(3)) + " " + std::to_string(r.chance(80) ? r.range(0, 1000) : r.chance(50) ? 0 : 1000));
        }
        else if (op == "py_repr") { auto v = of("p"); if (!v.empty()) emit("py_repr " + std::to_string(objs[r.pick(v)].id)); }
        else if (op == "py_cycle")
        {
            auto v = of("p");
            if (v.empty()) return;
            size_t i = r.pick(v);
            emit("py_cycle " + std::to_string(objs[i].id));
            drop_at(i);
        }
        else if (op == "py_gc") emit("py_gc");
        else if (op == "py_misuse") { long k = (long)r.below(12); emit("py_misuse " + std::to_string(k) + (k >= 9 ? " " + std::to_string(r.chance(50) ? r.range(15, 40) : r.chance(50) ? -r.range(2, 30) : r.range(100, 2000000000)) : "")); }
        else if (op == "py_names") emit("py_names " + std::to_string(r.below(5)), name(), true);
        else if (op == "py_take") // a C++ session takes a reference to what Python holds
        {
            std::vector<size_t> v;
            for (size_t i = 0; i < objs.size(); i++) if (objs[i].kind == 'p' && objs[i].pk == 'e') v.push_back(i);
            if (v.empty()) return;
            Obj o = objs[r.pick(v)];
            int id = emit("py_take " + std::to_string(o.id));
            add(id, 'e', o.t);
        }
        else if (op == "py_give")
        {
            Obj *o = term_obj();
            if (!o) return;
            T t = o->t;
            int id = emit("py_give " + std::to_string(o->id));
            add(id, 'p', t, 'e');
        }
        else { fprintf(stderr, "SIM: unknown step kind %s\n", op.c_str()); exit(95); }
    }

    void Gen::plan()
    {
        make_pool();
        char cfg[300];
        int low = r.chance(p.low_pct);
        snprintf(cfg, sizeof cfg, "config profile=%s reuse=%d dir=%d stride=%d junk=%d low=%d seed=%llu passes=%d py=%d", p.name.c_str(),
                 (int)r.below(4), (int)r.below(3), (int)(r.chance(p.stride_pct)), r.chance(p.junk_pct) ? (int)r.range(1, 4) : 0, low, (unsigned long long)r.below(1000000000), p.passes, p.py ? 1 : 0);
        out.push_back(cfg);
        std::vector<std::pair<std::string, int>> ops;
        int total = 0;
        // Swarm: each run leaves some kinds of step out and stresses others.
        for (auto &[k, w] : p.w)
        {
            int x = w;
            if (k != "parse" && k != "drop")
            {
                if (r.chance(15)) x = 0;
                else if (r.chance(20)) x *= 4;
            }
            if (k == "drop") x = (int)(x * r.range(1, 6) / 3);
            if (x) { ops.push_back({k, x}); total += x; }
        }
        int n = (int)r.range(p.steps_lo, p.steps_hi);
        if (r.chance(5)) n *= 4;
        int nraw = 0;
        for (int i = 0; i < n; i++)
        {
            if (r.chance(70)) sess = (int)r.below(4);
            int x = (int)r.below((uint64_t)total);
            size_t k = 0;
            while (x >= ops[k].second) { x -= ops[k].second; k++; }
            std::string op = ops[k].first;
            if ((op == "raw" || op == "py_raw") && ++nraw > 8) op = "bad";
            if (op == "reset" && r.chance(70)) op = "drop";
            // keep the number of live objects moderate
            if (objs.size() > 26 && r.chance(70)) op = "drop";
            step(op);
        }
    }

    Profile profile(const std::string &id)
    {
        Profile p;
        p.name = id;
        std::map<std::string, int> session = {{"parse", 30}, {"again", 4}, {"raw", 3}, {"bad", 5}, {"drop", 22}, {"copy", 6}, {"assign", 5}, {"sub", 10}, {"atom", 5}, {"stmt", 4}, {"cmpd", 4}, {"render", 3}, {"parser", 3}, {"clock", 1}, {"bagop", 3}};
        p.w = session;
        auto with = [&](std::initializer_list<std::pair<const char *, int>> l) { for (auto &x : l) p.w[x.first] = x.second; };
        if (id == "S01") { with({{"atom", 15}, {"atom2", 3}, {"churn", 2}, {"fill", 1}, {"sub", 14}, {"raw", 0}, {"anon", 2}, {"reset", 1}}); p.stride_pct = 60; p.oom_pct = 3; p.py = true; with({{"py_atom", 5}, {"py_names", 2}, {"py_parse", 5}, {"py_attr", 3}, {"py_gc", 1}}); p.tags = {"identity", "table", "struct"}; }
        else if (id == "S02") { with({{"table", 3}, {"terms", 2}, {"copy", 14}, {"assign", 14}, {"swap", 6}, {"bagop", 16}, {"bag", 2}, {"sub", 16}, {"atom", 10}, {"churn", 4}, {"fill", 1}, {"reset", 2}, {"raw", 1}, {"atom2", 3}, {"anon", 2}, {"sent", 4}, {"setop", 2}}); p.py = true; with({{"py_parse", 4}, {"py_atom", 4}, {"py_attr", 5}, {"py_cycle", 2}, {"py_gc", 2}, {"py_take", 2}, {"py_give", 2}}); p.steps_hi = 60; p.tags = {"table", "identity", "alive", "struct"}; }
        else if (id == "S03") { with({{"knob", 4}, {"parse", 50}, {"raw", 12}, {"bad", 14}, {"parser", 8}, {"again", 6}, {"sub", 2}, {"stmt", 0}, {"cmpd", 0}, {"atom", 1}, {"clock", 2}}); p.var_pct = 40; p.deep_pct = 8; p.junk_pct = 80; p.oom_pct = 4; p.input_pct = 6; p.tags = {"accept", "struct", "numbers", "outcome"}; }
        else if (id == "S04") { with({{"parse", 25}, {"raw", 18}, {"bad", 30}, {"parser", 5}, {"stmt", 1}, {"cmpd", 1}, {"py_bad", 3}, {"py_parse", 3}, {"py_raw", 2}}); p.py = true; p.deep_pct = 6; p.input_pct = 6; p.tags = {"rejected", "table", "alive", "outcome", "accept", "struct", "identity", "numbers", "badleak"}; }
        else if (id == "S05") { with({{"weigh", 8}, {"force", 2}, {"knob", 1}, {"parse", 40}, {"again", 25}, {"render", 20}, {"stmt", 8}, {"cmpd", 8}, {"anon", 2}, {"sent", 8}, {"raw", 2}, {"clone", 4}, {"rename", 4}, {"clock", 4}}); p.clock = true; p.var_pct = 35; p.deep_pct = 5; p.tags = {"render", "reparse", "alive"}; }
        else if (id == "S06") { with({{"force", 8}, {"ival", 2}, {"parse", 35}, {"eq", 14}, {"sub", 16}, {"stmt", 12}, {"cmpd", 14}, {"again", 8}, {"clone", 4}, {"rename", 4}, {"collide", 3}, {"twin", 2}, {"bad", 2}, {"raw", 1}, {"anon", 2}}); p.var_pct = 40; p.set_pct = 30; p.low_pct = 30; p.tags = {"eq", "order", "hash", "struct"}; }
        else if (id == "S07") { with({{"index", 5}, {"renum", 14}, {"rebuild", 5}, {"parse", 35}, {"clone", 16}, {"rename", 20}, {"sub", 14}, {"stmt", 16}, {"cmpd", 16}, {"render", 4}, {"again", 3}, {"raw", 1}, {"bad", 2}, {"copy", 4}}); p.var_pct = 60; p.set_pct = 10; p.tags = {"vars", "clone", "alive", "struct"}; }
        else if (id == "S08") { with({{"table", 1}, {"index", 1}, {"renum", 1}, {"force", 1}, {"terms", 3}, {"rebuild", 1}, {"parse", 30}, {"raw", 25}, {"bad", 15}, {"eq", 3}, {"clone", 3}, {"rename", 3}, {"merge", 3}, {"setop", 3}, {"churn", 2}, {"fill", 2}, {"reset", 2}, {"collide", 1}, {"twin", 1}, {"sent", 3}, {"atom2", 2}, {"anon", 2}, {"parser", 8}}); p.deep_pct = 14; p.junk_pct = 85; p.low_pct = 20; p.input_pct = 4; p.tags = {"heap"}; p.py = true; with({{"py_parse", 3}, {"py_raw", 3}, {"py_attr", 4}, {"py_next", 2}, {"py_misuse", 1}, {"py_cmpd", 2}}); }
        else if (id == "S09") { with({{"rebuild", 5}, {"weigh", 1}, {"parse", 40}, {"bad", 6}, {"raw", 0}, {"atom", 8}, {"stmt", 10}, {"cmpd", 10}, {"clone", 6}, {"render", 8}, {"merge", 4}, {"sub", 6}, {"again", 4}, {"parse_oomm", 6}}); p.oom_pct = 55; p.deep_pct = 2; p.py = true; with({{"py_parse", 4}, {"py_stmt", 2}, {"py_cmpd", 2}, {"py_attr", 2}}); p.input_pct = 5; p.tags = {"oom", "struct", "identity", "table", "alive", "accept", "render", "numbers", "ids"}; }
        else if (id == "S10") { with({{"table", 1}, {"index", 1}, {"renum", 2}, {"terms", 1}, {"force", 1}, {"rebuild", 1}, {"raw", 10}, {"bad", 22}, {"merge", 4}, {"setop", 3}, {"clone", 5}, {"sent", 5}, {"churn", 2}, {"reset", 1}, {"render", 8}, {"stmt", 8}, {"cmpd", 8}, {"anon", 3}, {"atom2", 2}, {"eq", 2}, {"parser", 6}}); p.passes = 3; p.deep_pct = 4; p.steps_hi = 30; p.py = true; with({{"py_parse", 3}, {"py_bad", 2}, {"py_attr", 3}, {"py_cmpd", 1}}); p.input_pct = 3; p.tags = {"leak"}; }
        else if (id == "S11") { with({{"weigh", 2}, {"parse", 40}, {"merge", 30}, {"base", 12}, {"inputs", 6}, {"maxbase", 5}, {"sent", 10}, {"copy", 6}, {"clock", 2}, {"bad", 4}}); p.clock = true; p.tags = {"ids", "merge"}; p.py = true; with({{"py_parse", 5}, {"py_sent", 3}, {"py_atom", 2}}); p.steps_hi = 60; }
        else if (id == "S12") { with({{"knob", 1}, {"parse", 50}, {"clock", 40}, {"conf", 6}, {"render", 20}, {"sent", 8}, {"again", 6}, {"sub", 3}, {"stmt", 0}, {"cmpd", 0}}); p.clock = true; p.tags = {"clock"}; p.py = true; with({{"py_parse", 5}, {"py_repr", 4}}); p.steps_hi = 60; }
        else if (id == "S13") { p.py = true; p.w = {{"py_parse", 30}, {"py_bad", 8}, {"py_raw", 4}, {"py_atom", 8}, {"py_anon", 2}, {"py_attr", 30}, {"py_next", 10}, {"py_stmt", 10}, {"py_cmpd", 12}, {"py_sent", 7}, {"py_num", 6}, {"py_set", 8}, {"py_repr", 14}, {"py_cycle", 5}, {"py_gc", 4}, {"py_misuse", 6}, {"py_names", 1}, {"py_take", 5}, {"py_give", 5}, {"drop", 24}, {"parse", 8}, {"sub", 4}, {"atom", 3}, {"clock", 2}, {"bad", 2}, {"eq", 2}}; p.var_pct = 30; p.clock = true; p.tags = {"py"}; p.oom_pct = 2; }
        else if (id == "S14") { with({{"terms", 5}, {"parse", 25}, {"stmt", 30}, {"cmpd", 40}, {"sub", 16}, {"atom", 8}, {"anon", 2}, {"clone", 4}, {"rename", 4}, {"again", 4}, {"raw", 1}}); p.var_pct = 35; p.set_pct = 25; p.py = true; with({{"py_atom", 3}, {"py_stmt", 4}, {"py_cmpd", 5}, {"py_give", 5}, {"py_take", 4}}); p.tags = {"create", "alive", "struct"}; }
        else if (id == "S15") { with({{"force", 5}, {"terms", 8}, {"parse", 30}, {"setop", 50}, {"sub", 14}, {"cmpd", 10}, {"atom", 6}, {"clone", 3}, {"rename", 3}, {"collide", 3}}); p.set_pct = 45; p.var_pct = 30; p.low_pct = 25; p.tags = {"setop", "alive"}; }
        else { fprintf(stderr, "SIM: unknown profile %s\n", id.c_str()); exit(95); }
        return p;
    }
}
