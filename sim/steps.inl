// The steps of a plan.  Included by exec.cpp.
namespace
{
    long pending_oom = -1;
    bool pending_sticky = false;

    long num(const Strs &a, size_t i, long d = 0) { return i < a.size() ? atol(a[i].c_str()) : d; }
    bool has_anon(const T &t)
    {
        if ((t->k == ATOM || t->k == OP) && t->name[0] == '@') return true;
        for (auto &x : t->a) if (has_anon(x)) return true;
        return false;
    }
    void collect_anon(const T &t, std::set<std::string> &out)
    {
        if (t->k == ATOM && t->name[0] == '@') out.insert(t->name);
        for (auto &x : t->a) collect_anon(x, out);
    }
    // Anonymous atoms that nothing refers to any more.
    void purge_anon()
    {
        if (anon.empty()) return;
        std::set<std::string> used;
        for (auto &[id, h] : H)
        {
            if (h->t) collect_anon(h->t, used);
            for (auto &x : h->bagm) collect_anon(x, used);
            for (auto &x : h->rest) collect_anon(x, used);
        }
        for (auto &t : cycle_terms) collect_anon(t, used);
        for (auto i = anon.begin(); i != anon.end();)
            if (used.count(i->first)) ++i; else i = anon.erase(i);
    }

    // Narsese for a model.
    std::string to_text(const T &t)
    {
        switch (t->k)
        {
        case ATOM: return t->name;
        case OP: return "^" + t->name;
        case VAR: return std::string(1, t->vk) + std::to_string(t->n);
        case IVAL: return "+" + std::to_string(t->n);
        case STMT:
            if (t->c == INH && t->a[0]->k == CMPD && t->a[0]->a.empty()) return "(" + to_text(t->a[1]) + ")";
            return "<" + to_text(t->a[0]) + " " + COP[t->c] + " " + to_text(t->a[1]) + ">";
        case CMPD:
        {
            std::string s = t->c == EXTSET ? "{" : t->c == INTSET ? "[" : "(" + std::string(CON[t->c]) + ", ";
            for (size_t i = 0; i < t->a.size(); i++) s += (i ? ", " : "") + to_text(t->a[i]);
            return s + (t->c == EXTSET ? "}" : t->c == INTSET ? "]" : ")");
        }
        }
        return "?";
    }
    bool writable(const T &t) // can it be written in Narsese at all?
    {
        if (t->degenerate || has_anon(t)) return false;
        std::function<bool(const T &)> ok = [&](const T &x)
        {
            if (x->k == STMT && (x->c == INST || x->c == PROP || x->c == INSTPROP)) return false;
            if (x->k == VAR && x->n < 0) return false;
            if (x->k == CMPD && x->a.empty()) return false;
            if (x->k == STMT && x->c == INH && x->a[0]->k == CMPD && x->a[0]->a.empty()) return x->a[1]->k == OP; // (^op)
            for (auto &y : x->a) if (!ok(y)) return false;
            return true;
        };
        return ok(t);
    }

    // Text that stands for the term t (with model m) is parsed as both ends of a statement; what comes back must be t.
    void parse_back(Term &t, const T &m, const std::string &text, int p, std::initializer_list<const char *> tags, const std::string &shown)
    {
        if (text.size() > 3500) return;
        std::string line = "<" + text + " --> " + text + ">.";
        pTask task;
        Outcome o = sut([&] { task = parser(p).parse_task(line); });
        if (o.oom) return;
        if (!o.ok || !task) { viol(tags, "the text of " + cut(m->key) + " does not parse: " + cut(text) + " " + o.what); return; }
        T got = extract(*task->sentence->term);
        if (got->k != STMT) { viol(tags, "the text of " + cut(m->key) + " parses as " + cut(got->key)); return; }
        for (int i = 0; i < 2; i++)
        {
            Term &x = i ? *task->sentence->term->predicate : *task->sentence->term->subject;
            T g = got->a[(size_t)i];
            bool exact = g->key == m->key;
            if (!exact && (!m->var || !same_up_to_variables(g, m))) { viol(tags, "the text of " + cut(m->key) + " parses as " + cut(g->key)); break; }
            if (exact)
            {
                bool eq = false, eq2 = false;
                sut([&] { eq = x == t; eq2 = t == x; });
                if (!eq || !eq2) { viol(tags, "the term parsed from its own text differs: " + cut(m->key)); break; }
                if (!shown.empty())
                {
                    Outcome o2;
                    std::string s = render_term(x, false, o2);
                    if (s != shown) { viol(tags, "equal terms are shown as " + cut(s) + " and " + cut(shown)); break; }
                }
            }
        }
        sut([&] { task = pTask(); });
        CNT->add("parsed_back");
    }
    void as_parsed(Term &t, const T &m)
    {
        if (!TAGS.count("create") || m->size > 60 || !writable(m)) return;
        Outcome o;
        std::string shown = render_term(t, false, o);
        if (!o.ok) { viol({"create"}, "a built term cannot be shown: " + o.what); return; }
        parse_back(t, m, to_text(m), 0, {"create"}, shown);
    }

    int count_group(int g)
    {
        int n = 0;
        for (auto &[id, h] : H)
        {
            if (h->group == g && h->kind != 'b' && h->kind != '2') n++;
            for (int x : h->bagg) n += x == g;
        }
        return n;
    }

    void step_parse(int id, const Strs &a, const std::string &text)
    {
        Task m;
        try { m = read_task(text); }
        catch (Bad &e) { return; }
        bool armed = oom_armed;
        int way = (int)num(a, 1);
        pTask t;
        Outcome o = give(parser((int)num(a, 0)), text, way, t);
        if (armed && o.oom)
        {
            if (!o.ok)
            {
                if (o.what != "bad_alloc" && o.what != "std::bad_alloc") CNT->add("oom_reported_otherwise");
                sut([&] { t = pTask(); });
                maybe_names(text);
                check_all(false);
                o = give(parser((int)num(a, 0)), text, way, t);
                if (!o.ok || !t) { viol({"oom", "accept"}, "a line that ran out of memory is not accepted once memory is back: " + cut(text) + " " + o.what); return; }
            }
            else if (!t) { viol({"oom"}, "running out of memory was reported as a rejected line: " + cut(text)); return; }
            else CNT->add("oom_absorbed");
        }
        if (!o.ok || !t) { viol({"accept", "outcome"}, "a well-formed line was rejected: " + cut(text) + (o.what.empty() ? "" : " (" + o.what + ")")); return; }
        CNT->add("parsed");
        new_task(id, t, m, m.term, "line " + cut(text));
    }

    void step_bad(const Strs &a, const std::string &text)
    {
        bool armed = oom_armed;
        uint64_t blocks[4] = {0, 0, 0, 0};
        int rounds = TAGS.count("badleak") && !armed ? 4 : 1;
        for (int k = 0; k < rounds; k++)
        {
            pTask t;
            Outcome o = give(parser((int)num(a, 0)), text, (int)num(a, 1), t);
            bool accepted = o.ok && t;
            if (accepted) { viol({"rejected", "accept"}, "a line that is not Narsese was accepted: " + cut(text)); sut([&] { t = pTask(); }); return; }
            if (armed) { maybe_names(text); CNT->add("bad_under_oom"); }
            blocks[k] = arena::stats().live_blocks;
        }
        if (rounds == 4 && blocks[3] > blocks[2] && blocks[2] > blocks[1]) viol({"badleak"}, "every time the line is rejected, " + std::to_string(blocks[3] - blocks[2]) + " blocks stay behind: " + cut(text));
        CNT->add("rejected");
    }

    void step_raw(int id, const Strs &a, const std::string &text)
    {
        FactorySettings factory; // as in the fresh process
        auto ref = reference.find(text);
        pTask keep;
        NarseseParser &p = parser((int)num(a, 0));
        std::string r = outcome(p, text, &keep, (int)num(a, 1));
        if (r == "O") { maybe_names(text); return; }
        CNT->add(r == "R" ? "raw_rejected" : "raw_accepted");
        if (ref != reference.end() && ref->second != r)
            viol({"outcome"}, "in a fresh process the line " + cut(text) + " gives " + cut(ref->second) + ", here it gives " + cut(r));
        if (r == "R" && text.find_first_of(std::string("\n\0", 2)) == std::string::npos)
        {
            bool readable = true;
            for (char c : text) readable &= c >= ' ' && c < 127;
            try { readable = readable && !read_task(text).doubt; }
            catch (Bad &e) { readable = false; }
            if (readable) viol({"accept"}, "a well-formed line was rejected: " + cut(text));
        }
        if (!keep) return;
        if (text.find('\0') != std::string::npos) viol({"rejected", "accept"}, "a line with a NUL in it was accepted: " + cut(text));
        if (keep->sentence && keep->sentence->term)
        {
            std::string line = text.substr(0, text.find('\n'));
            T got = extract(*keep->sentence->term);
            Task m;
            bool readable = true;
            try { m = read_task(line); }
            catch (Bad &e) { readable = false; }
            if (!readable) viol({"rejected", "accept"}, "a line that is not Narsese was accepted as " + cut(got->key) + ": " + cut(line));
            else if (m.term->key != got->key) viol({"struct", "accept"}, "the line " + cut(line) + " should read " + cut(m.term->key) + " but is " + cut(got->key));
            if (readable && keep->budget && keep->sentence->stamp)
            {
                Handle x;
                x.kind = 't'; x.t = got; x.m = m;
                sut([&] { x.task = keep; });
                defaults(x.m);
                x.sm = expect_stamp(m);
                check_task(x, "the line " + cut(line));
                check_stamp(x.task->sentence->stamp, *x.sm, "the line " + cut(line), true);
                sut([&] { x.task = pTask(); });
            }
            Handle &h = put(id, 'e', got);
            sut([&] { h.term = keep->sentence->term; keep = pTask(); });
            h.group = ++groups;
            check_text(h, false);
            release(id);
        }
        else sut([&] { keep = pTask(); });
    }

    // A tab in a line means what a blank means there.  Only known findings use this step: the generated lexer does not hold to it.
    void step_tabs(const Strs &a, const std::string &text)
    {
        std::string plain = text;
        std::replace(plain.begin(), plain.end(), '\t', ' ');
        std::string x = outcome(parser((int)num(a, 0)), text, nullptr), y = outcome(parser((int)num(a, 0)), plain, nullptr);
        if (x != y) viol({"accept"}, "with tabs in place of blanks, the line " + cut(plain) + " gives " + cut(x) + " in place of " + cut(y));
    }
    void step_reparse(const Strs &a)
    {
        Handle *h = get((int)num(a, 0), "te");
        if (!h || h->t->size > 400 || has_anon(h->t)) return;
        if (!writable(h->t) && !num(a, 2)) return; // a third argument insists: only known findings do
        int p = (int)num(a, 1);
        if (h->kind == 't')
        {
            std::string text;
            Outcome o = sut([&] { std::string x = I().interpret(*h->task); arena::Out z; text = take(x); });
            if (!o.ok) { viol({"render"}, "a task cannot be shown: " + o.what); return; }
            pTask t;
            o = sut([&] { t = parser(p).parse_task(text); });
            if (!o.ok || !t) { viol({"reparse"}, "the text of a task does not parse: " + cut(text) + " " + o.what); return; }
            T got = extract(*t->sentence->term);
            if (got->key != h->t->key && (!h->t->var || !same_up_to_variables(got, h->t))) viol({"reparse"}, "the text of " + cut(h->t->key) + " parses as " + cut(got->key));
            bool eq = got->key != h->t->key;
            if (!eq) sut([&] { eq = *t->sentence->term == *h->task->sentence->term; });
            if (!eq) viol({"reparse"}, "the task parsed from its own text has another term: " + cut(text));
            if (PUNCT[(int)t->sentence->punct] != h->m.punct) viol({"reparse"}, "the task parsed from its own text has another punctuation: " + cut(text));
            auto close = [](double x, double y, double e) { return std::fabs(x - y) <= e; };
            if (h->m.punct == '.' || h->m.punct == '!')
                if (!t->sentence->truth || !close(t->sentence->truth->f, h->m.t[0], 0.00051) || !close(t->sentence->truth->c, shown_c(*h), 0.00051)) viol({"reparse"}, "the task parsed from its own text has another truth: " + cut(text));
            if (!close(t->budget->priority, shown_b(*h, 0), 0.0056) || !close(t->budget->durability, shown_b(*h, 1), 0.0056) || !close(t->budget->quality, shown_b(*h, 2), 0.0111)) viol({"reparse"}, "the task parsed from its own text has another budget: " + cut(text));
            if (t->sentence->stamp->is_eternal != h->sm->eternal) viol({"reparse"}, "the task parsed from its own text has another tense: " + cut(text));
            sut([&] { t = pTask(); });
            CNT->add("parsed_back");
            return;
        }
        Outcome o;
        std::string text = render_term(*h->term, false, o);
        if (!o.ok) { viol({"render"}, "rendering failed: " + o.what); return; }
        parse_back(*h->term, h->t, text, p, {"reparse"}, text);
    }

    std::set<size_t> ids_of(const Base &b) { return std::set<size_t>(b._set->begin(), b._set->end()); }
    void check_merge(const std::set<size_t> &a, const std::set<size_t> &b, const std::set<size_t> &got, const std::string &who)
    {
        std::set<size_t> u = a;
        u.insert(b.begin(), b.end());
        size_t max = (size_t)CONFIG::maximum_evidential_base_length;
        for (auto i : got) if (!u.count(i)) viol({"merge"}, who + ": id " + std::to_string(i) + " belongs to neither base");
        if (u.size() <= max) { if (got != u) viol({"merge"}, who + ": " + std::to_string(got.size()) + " ids instead of the union of " + std::to_string(u.size())); return; }
        if (got.size() > max) viol({"merge"}, who + ": " + std::to_string(got.size()) + " ids, more than the maximum of " + std::to_string(max));
        if (max >= 2)
        {
            auto some = [&](const std::set<size_t> &x) { if (x.empty()) return true; for (auto i : x) if (got.count(i)) return true; return false; };
            if (!some(a) || !some(b)) viol({"merge"}, who + ": nothing of one of the bases was kept");
        }
    }
    void check_hash(Base &b, const std::string &who)
    {
        size_t h1 = 0, h2 = 1;
        Outcome o = sut([&] { h1 = b.__hash__(); Base c(*b._set); h2 = c.__hash__(); });
        if (o.ok && h1 != h2) viol({"merge"}, who + ": the hash does not belong to the ids");
    }
    void step_merge(const Strs &a)
    {
        Handle *x = get((int)num(a, 0), "ts"), *y = get((int)num(a, 1), "ts");
        if (!x || !y) return;
        auto stamp = [](Handle &h) { return h.kind == 't' ? h.task->sentence->stamp : h.sent->stamp; };
        SENTENCE::pStamp sx, sy;
        sx = stamp(*x); sy = stamp(*y);
        if (!sx || !sy || !sx->evidential_base || !sy->evidential_base) return;
        std::set<size_t> ia = x->sm->ids, ib = y->sm->ids;
        Outcome o;
        bool armed = oom_armed;
        if (!armed)
        {
            std::vector<size_t> both;
            std::set_intersection(ia.begin(), ia.end(), ib.begin(), ib.end(), std::back_inserter(both));
            bool p = false, q = false;
            size_t hx = 0;
            o = sut([&] { p = sx->evidential_base->is_overlaped(*sy->evidential_base); q = sy->evidential_base->is_overlaped(*sx->evidential_base); hx = sx->evidential_base->__hash__(); });
            (void)hx;
            if (!o.ok || p != !both.empty() || q != !both.empty()) viol({"merge"}, std::string("overlap of two bases is reported as ") + (p ? "true" : "false") + "/" + (q ? "true" : "false") + ", they share " + std::to_string(both.size()) + " ids");
        }
        if (num(a, 2) == 2)
        {
            EVIDENCE::pBase r;
            o = sut([&] { r = Base::interleave(*sx->evidential_base, *sy->evidential_base); });
            if (o.oom && !o.ok) return;
            if (!o.ok) { viol({"merge"}, "merging failed: " + o.what); return; }
            check_merge(ia, ib, ids_of(*r), "interleaving");
            check_hash(*r, "interleaving");
            sut([&] { r = nullptr; });
        }
        else
        {
            bool m0 = num(a, 2) == 0;
            o = sut([&] { if (m0) sx->extend_evidenital_base(*sy->evidential_base); else sx->evidential_base->extend(*sy->evidential_base); });
            auto now = ids_of(*sx->evidential_base);
            if (o.oom && !o.ok)
            {
                if (now != ia) { viol({"oom", "merge"}, "a merge that ran out of memory changed the base from " + std::to_string(ia.size()) + " to " + std::to_string(now.size()) + " ids"); x->sm->ids = now; }
                return;
            }
            if (!o.ok) { viol({"merge"}, "merging failed: " + o.what); return; }
            check_merge(ia, ib, now, "merging");
            check_hash(*sx->evidential_base, "merging");
            x->sm->ids = now;
        }
        if (ids_of(*sy->evidential_base) != y->sm->ids) viol({"merge"}, "merging changed the base that was merged in");
        CNT->add("merged");
    }
    void step_base(const Strs &a)
    {
        std::set<size_t> x[2];
        int k = 0;
        for (auto &s : a) if (s == "/") k = 1; else x[k].insert((size_t)atol(s.c_str()));
        std::unique_ptr<Base> p, q;
        Outcome o = sut([&] { p.reset(new Base(std::set<size_t>(x[0]))); q.reset(new Base(std::set<size_t>(x[1]))); });
        bool ov = false, ov2 = false;
        size_t h0 = 0;
        o = sut([&] { ov = p->is_overlaped(*q); ov2 = q->is_overlaped(*p); h0 = p->__hash__(); });
        (void)h0;
        bool want = false;
        for (auto i : x[0]) want |= x[1].count(i) > 0;
        if (ov != want || ov2 != want) viol({"merge"}, "overlap of two bases is reported wrongly");
        EVIDENCE::pBase r;
        o = sut([&] { r = Base::interleave(*p, *q); });
        if (!o.ok) viol({"merge"}, "interleaving failed: " + o.what);
        else { check_merge(x[0], x[1], ids_of(*r), "interleaving"); check_hash(*r, "interleaving"); }
        if (ids_of(*p) != x[0] || ids_of(*q) != x[1]) viol({"merge"}, "interleaving changed its arguments");
        o = sut([&] { p->extend(*q); });
        if (!o.ok) viol({"merge"}, "extending failed: " + o.what);
        else { check_merge(x[0], x[1], ids_of(*p), "extending"); check_hash(*p, "extending"); }
        if (ids_of(*q) != x[1]) viol({"merge"}, "extending changed its argument");
        o = sut([&] { q->add(77); });
        std::set<size_t> w = x[1];
        w.insert(77);
        if (ids_of(*q) != w) viol({"merge"}, "adding an id gives other ids");
        if (q->size() != w.size()) viol({"merge"}, "the size of a base is wrong");
        check_hash(*q, "adding");
        std::set<size_t> before = ids_of(*q);
        o = sut([&] { q->extend(*q); });
        check_merge(before, before, ids_of(*q), "extending by itself");
        sut([&] { p.reset(); q.reset(); r = nullptr; });
        CNT->add("merged");
    }

    template <class C> void set_counter(C &c, size_t v) { c = (C)v; }
    void set_counter(sim_none, size_t) {}
    // Other inputs: as many as it takes until the next id is 2^k more than one that was given out.
    void step_inputs(const Strs &a)
    {
        if (ids_seen.empty()) return;
        int k = (int)std::min(48L, std::max(1L, num(a, 0)));
        auto it = ids_seen.begin();
        std::advance(it, num(a, 1) % (long)ids_seen.size());
        size_t target = *it + (1UL << k);
        if (target <= *ids_seen.rbegin()) return;
        Outcome o;
        if (k <= 16)
            o = sut([&] { for (int i = 0; i < 1 << 17 && GLOBAL::get_input_id() + 1 < target; i++) {} });
        else
            set_counter(GLOBAL::_input_id, target);
        CNT->add("inputs");
    }

    void step_setop(const Strs &a)
    {
        int op = (int)num(a, 0);
        static const int CONS[] = {EXTSET, INTSET, CONJ, EXTINT};
        int con = CONS[num(a, 1) & 3];
        std::vector<Handle *> hs;
        for (size_t i = 2; i < a.size(); i++)
        {
            Handle *h = get(atoi(a[i].c_str()), "e");
            if (h && h->t->k == CMPD && con_commutative(h->t->c)) hs.push_back(h);
        }
        static const char *NAME[] = {"intersection", "union", "difference"};
        std::vector<T> want;
        for (size_t i = 0; i < hs.size(); i++)
            want = i == 0 ? hs[0]->t->a : op == 0 ? inter(want, hs[i]->t->a) : op == 1 ? uni(want, hs[i]->t->a) : minus(want, hs[i]->t->a);
        want = as_set(want);
        pTerms r;
        Outcome o = sut([&]
            {
                std::vector<pTerms> v;
                for (auto h : hs) v.push_back(h->term->terms);
                r = op == 0 ? Terms::intersection(v) : op == 1 ? Terms::union_(v) : Terms::difference(v);
            });
        if (hs.empty())
        {
            if (o.ok) viol({"setop"}, std::string("the ") + NAME[op] + " of nothing did not fail");
            sut([&] { r = nullptr; });
            return;
        }
        if (!o.ok || !r) { viol({"setop"}, std::string("the ") + NAME[op] + " failed: " + o.what); return; }
        auto check = [&](Terms &ts, const std::vector<T> &w, const char *what)
        {
            std::vector<T> got;
            for (auto &x : ts.terms_unordered) got.push_back(extract(*x));
            std::string g, e;
            for (auto &x : as_set(got)) g += " " + x->key;
            for (auto &x : w) e += " " + x->key;
            if (g != e) viol({"setop"}, std::string("the ") + what + " of " + std::to_string(hs.size()) + " sets should be" + cut(e) + " but is" + cut(g));
            if (got.size() != w.size() && g == e) viol({"setop"}, std::string("the ") + what + " holds a term twice:" + cut(e));
            if (!ts._is_commutative || !ts.terms_ordered.empty()) viol({"setop"}, std::string("the ") + what + " is not a set");
            check_sorted(ts, {"setop"});
        };
        check(*r, want, NAME[op]);
        // the result is an operand again
        pTerms r2, r3;
        o = sut([&] { r2 = Terms::union_({r, hs[0]->term->terms}); r3 = Terms::difference({r, hs.back()->term->terms}); });
        if (!o.ok) viol({"setop"}, "the result cannot be used as an operand: " + o.what);
        else { check(*r2, uni(want, hs[0]->t->a), "union with the result"); check(*r3, as_set(minus(want, hs.back()->t->a)), "difference of the result"); }
        // ... at every place, also when it is empty, and so is a set that never had a term
        {
            std::vector<T> first = as_set(hs[0]->t->a), last = as_set(hs.back()->t->a), none;
            pTerms v[7];
            o = sut([&]
                {
                    pTerms nil = Terms::create(true), f = hs[0]->term->terms, l = hs.back()->term->terms;
                    v[0] = Terms::intersection({f, r});
                    v[1] = Terms::intersection({f, r, l});
                    v[2] = Terms::union_({f, r, l});
                    v[3] = Terms::difference({f, r, l});
                    v[4] = Terms::intersection({f, nil});
                    v[5] = Terms::union_({nil, f, nil});
                    v[6] = Terms::difference({f, nil});
                });
            if (!o.ok) viol({"setop"}, "the result cannot be a later operand: " + o.what);
            else
            {
                check(*v[0], as_set(inter(first, want)), "intersection with the result");
                check(*v[1], as_set(inter(inter(first, want), last)), "intersection with the result between");
                check(*v[2], as_set(uni(uni(first, want), last)), "union with the result between");
                check(*v[3], as_set(minus(minus(first, want), last)), "difference with the result between");
                check(*v[4], none, "intersection with an empty set");
                check(*v[5], first, "union with empty sets");
                check(*v[6], first, "difference with an empty set");
            }
            sut([&] { for (auto &x : v) x = nullptr; });
        }
        if (!want.empty() && want.size() < 30)
        {
            pTerm c;
            o = sut([&] { c = COMPOUND::Compound::create((Connector_)con, r); });
            if (!o.ok) viol({"setop"}, "no compound can be made of the result: " + o.what);
            else same(c.get(), make(con, want), {"setop"}, "a compound made of the result");
            sut([&] { c = pTerm(); });
        }
        for (auto h : hs)
        {
            same(h->term.get(), h->t, {"setop", "alive"}, "an operand");
            check_sorted(*h->term->terms, {"setop"});
        }
        sut([&] { r = r2 = r3 = nullptr; });
        CNT->add("setops");
    }

    int forced_slot = 0;
    // Two terms whose hashes are equal: 0-2 statements, 3 products, 4 sets, 5 a sequence and a product, 6 images.
    void step_collide(int id, const Strs &a)
    {
        static const int COPS[] = {INH, SIM, IMP};
        int kind = (int)num(a, 0) % 7;
        int cop = COPS[kind % 3], con = kind == 3 ? PROD : kind == 4 ? EXTSET : kind == 6 ? EXTIMG : SEQ;
        if (a.size() < 5) return;
        using V = std::vector<size_t>;
        auto prefix = [&](uintptr_t S) { return kind < 3 ? V{(size_t)TERM::TermType::STATEMENT, (size_t)'<', hash_for(S), (size_t)cop} : V{(size_t)TERM::TermType::COMPOUND, (size_t)'(', (size_t)con, hash_for(S)}; };
        auto inverse = [](size_t target, size_t s) { return (target ^ s) - 0x9e3779b9 - (s << 6) - (s >> 2); };
        auto apart = [](uintptr_t x, uintptr_t y) { return (x > y ? x - y : y - x) >= 1024; };
        uintptr_t base = arena::forced_base() + 0x100000 + (uintptr_t)(forced_slot++ % 16) * 0x200000;
        uintptr_t S = base, P = base + 0x80000, S2 = 0, P2 = 0;
        if (arena::forced_ok(S) && arena::forced_ok(P))
            for (uintptr_t d = 0x1000; d < 0x1000 + 16 * 60000 && !P2; d += 16)
            {
                if (kind == 5)
                {
                    S = base + 0x100000 + d;
                    uintptr_t c = address_for(inverse(UTILS::Hash{}(prefix(S)), UTILS::Hash{}(V{(size_t)TERM::TermType::COMPOUND, (size_t)'(', (size_t)PROD})));
                    if (arena::forced_ok(S) && arena::forced_ok(c) && apart(c, S) && apart(c, P) && apart(S, P)) { S2 = c; P2 = P; }
                    continue;
                }
                S2 = S + d;
                V all = prefix(S);
                all.push_back(hash_for(P));
                uintptr_t c = address_for(inverse(UTILS::Hash{}(all), UTILS::Hash{}(prefix(S2))));
                if (kind == 4 && (hash_for(S) > hash_for(P) || hash_for(S2) > hash_for(c))) continue;
                if (arena::forced_ok(c) && arena::forced_ok(S2) && apart(c, S) && apart(c, P) && apart(c, S2) && apart(S2, P)) P2 = c;
            }
        if (!P2) S = P = S2 = 0;
        std::vector<pTerm> at(4);
        uintptr_t addr[4] = {S, P, S2, P2};
        for (int i = 0; i < 4; i++) if (i == 3 && kind == 5) at[3] = at[1]; else at[(size_t)i] = atom_at(addr[i], a[(size_t)i + 1]);
        pTerm t[2];
        T m[2];
        for (int i = 0; i < 2; i++)
        {
            T x = atom(a[(size_t)i * 2 + 1]), y = atom(a[i && kind == 5 ? 2 : (size_t)i * 2 + 2]);
            int k = i && kind == 5 ? PROD : con;
            m[i] = kind < 3 ? stmt(x, cop, y) : make(k, {x, y});
            Outcome o = sut([&]
                {
                    std::vector<pTerm> v{at[(size_t)i * 2], at[(size_t)i * 2 + 1]};
                    if (kind < 3) t[i] = STATEMENT::Statement::create(v[0], (COPULA::Copula)cop, v[1]);
                    else t[i] = COMPOUND::Compound::create((CONNECTOR::Connector)k, v);
                });
            if (!o.ok || !t[i]) { viol({"create"}, "a term cannot be built: " + o.what); return; }
        }
        bool hit = t[0]->hash_value == t[1]->hash_value;
        CNT->add(hit ? "fault_hash_collision" : "collision_missed");
        if (hit)
        {
            // Sets that hold one each: what they share is not what collides.
            pTerm s[2], u, n;
            T sm[2] = {make(EXTSET, {m[0], atom(a[1])}), make(EXTSET, {m[1], atom(a[1])})};
            Outcome o = sut([&]
                {
                    for (int i = 0; i < 2; i++) { std::vector<pTerm> v{t[i], at[0]}; s[i] = COMPOUND::Compound::create(CONNECTOR::ExtensionalSet, v); }
                    std::vector<pTerm> v{s[0], s[1]};
                    n = COMPOUND::Compound::create(CONNECTOR::ExtensionalIntersection, v);
                    u = COMPOUND::Compound::create(CONNECTOR::IntensionalIntersection, v);
                });
            if (!o.ok || !n || !u) viol({"create", "setop"}, "sets of terms with equal hashes cannot be merged: " + o.what);
            else
            {
                same(n.get(), make(EXTINT, {sm[0], sm[1]}), {"setop", "create", "eq"}, "the common part of two sets of terms with equal hashes");
                same(u.get(), make(INTINT, {sm[0], sm[1]}), {"setop", "create", "eq"}, "the union of two sets of terms with equal hashes");
            }
            sut([&] { for (auto &x : s) x = pTerm(); u = pTerm(); n = pTerm(); });
        }
        sut([&] { std::vector<pTerm>().swap(at); });
        for (int i = 0; i < 2; i++) made(id + 1 + i, t[i], m[i], "a term");
    }
    // Own copies of held terms, all with one hash: only their structure tells them apart.
    void step_force(const Strs &a)
    {
        std::vector<pTerm> v;
        std::vector<T> m;
        Outcome o;
        for (auto &x : a)
        {
            Handle *h = get(atoi(x.c_str()), "e");
            if (!h || v.size() > 7 || (!h->term->is_statement() && !h->term->is_compound()) || h->t->size > 40) continue;
            pTerm t;
            o = sut([&]
                {
                    if (h->term->is_statement()) t = pTerm(new STATEMENT::Statement((STATEMENT::Statement &)*h->term, true));
                    else t = pTerm(new COMPOUND::Compound((COMPOUND::Compound &)*h->term, true));
                });
            if (!o.ok || !t) { viol({"clone"}, "a copy cannot be made of " + cut(h->t->key) + ": " + o.what); return; }
            same(t.get(), h->t, {"clone"}, "a copy");
            if (!I().dictionary.empty())
            {
                // with the hash of an atom whose name is known, it is still shown as itself
                for (bool colored : {false, true})
                {
                    auto was = t->hash_value;
                    Outcome o2;
                    std::string want = render_term(*t, colored, o);
                    t->hash_value = I().dictionary.begin()->first;
                    std::string got = render_term(*t, colored, o2);
                    t->hash_value = was;
                    if (o.ok && o2.ok && got != want) viol({"render"}, "with the hash of an atom, " + cut(want) + " is shown as " + cut(got));
                }
            }
            t->hash_value = 0x5eed5eed5eedull;
            t->is_hashed = true;
            m.push_back(h->t);
            sut([&] { v.push_back(t); t = pTerm(); });
        }
        size_t n = v.size();
        if (n < 2) { sut([&] { std::vector<pTerm>().swap(v); }); return; }
        std::vector<std::vector<char>> less(n, std::vector<char>(n));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
            {
                bool eq = false, lt = false;
                o = sut([&] { eq = *v[i] == *v[j]; lt = *v[i] < *v[j]; });
                if (!o.ok) viol({"eq", "order"}, "comparing failed: " + o.what);
                if (eq != (m[i]->key == m[j]->key)) viol({"eq"}, "with equal hashes, " + cut(m[i]->key) + (eq ? " == " : " != ") + cut(m[j]->key));
                if (eq && lt) viol({"order"}, "with equal hashes, " + cut(m[i]->key) + " < an equal term");
                less[i][j] = lt;
            }
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
            {
                if (j < i && m[i]->key != m[j]->key && less[i][j] == less[j][i]) viol({"order"}, "with equal hashes, neither or both of " + cut(m[i]->key) + " and " + cut(m[j]->key) + " comes first");
                for (size_t k = 0; k < n; k++)
                    if (less[i][j] && less[j][k] && !less[i][k]) viol({"order"}, "with equal hashes, the order is not transitive: " + cut(m[i]->key) + ", " + cut(m[j]->key) + ", " + cut(m[k]->key));
            }
        // sets of them
        auto check = [&](Terms *ts, const std::vector<T> &want, const char *what)
        {
            std::string g, e;
            if (!ts) { viol({"setop"}, std::string(what) + " failed"); return; }
            std::vector<T> got;
            for (auto &x : ts->terms_unordered) got.push_back(extract(*x));
            for (auto &x : as_set(got)) g += " " + x->key;
            for (auto &x : as_set(want)) e += " " + x->key;
            if (g != e || got.size() != as_set(want).size()) viol({"setop", "order"}, std::string("with equal hashes, ") + what + " should be" + cut(e) + " but is" + cut(g));
            check_sorted(*ts, {"setop", "order"});
        };
        size_t h = (n + 1) / 2;
        std::vector<T> ma(m.begin(), m.begin() + (long)h), mb(m.begin() + (long)(h - 1), m.end());
        ma = as_set(ma); mb = as_set(mb);
        pTerms x, y, r[3];
        pTerm c;
        bool nested = false; // a set among them is merged, and its components have hashes of their own
        for (auto &k : m) nested |= k->k == CMPD && k->c == EXTSET;
        o = sut([&]
            {
                x = std::make_shared<Terms>(true); y = std::make_shared<Terms>(true);
                for (size_t i = 0; i < h; i++) x->push_back(v[i]);
                for (size_t i = n; i-- > h - 1;) y->push_back(v[i]);
                r[0] = Terms::intersection({x, y}); r[1] = Terms::union_({x, y}); r[2] = Terms::difference({x, y});
                if (!nested) c = COMPOUND::Compound::create(CONNECTOR::ExtensionalSet, v);
            });
        if (!o.ok) viol({"setop", "create"}, "sets of terms with equal hashes failed: " + o.what);
        else
        {
            check(x.get(), ma, "a set"); check(y.get(), mb, "a set");
            check(r[0].get(), inter(ma, mb), "the intersection"); check(r[1].get(), uni(ma, mb), "the union"); check(r[2].get(), minus(ma, mb), "the difference");
            if (!nested) same(c.get(), make(EXTSET, m), {"create", "eq", "order"}, "a set of terms with equal hashes");
        }
        sut([&] { c = pTerm(); x = y = nullptr; for (auto &z : r) z = nullptr; std::vector<pTerm>().swap(v); });
        CNT->add("fault_hash_forced_equal");
    }
    // A tree of variable indices on its own, against a plain model.
    void step_index(const Strs &a)
    {
        using INDEXVAR::IndexVar;
        using INDEXVAR::pIndexVar;
        typedef std::shared_ptr<int> Cell;
        struct Node { pIndexVar p; std::vector<int> kids; std::vector<Cell> own; };
        std::vector<Node> n;
        size_t at = 0;
        auto next = [&](long m) { long x = num(a, at++); return (int)((x < 0 ? -x : x) % m); };
        auto fresh = [&] { Node x; Outcome o = sut([&] { x.p = IndexVar::create(); }); if (!o.ok || !x.p) viol({"vars"}, "an index cannot be made: " + o.what); n.push_back(x); return (int)n.size() - 1; };
        typedef std::vector<std::pair<std::vector<int>, Cell>> Occ;
        std::function<Occ(int)> want = [&](int i)
        {
            Occ r;
            if (n[(size_t)i].kids.empty()) { for (auto &c : n[(size_t)i].own) r.push_back({{}, c}); return r; }
            for (size_t k = 0; k < n[(size_t)i].kids.size(); k++)
                for (auto &[pos, c] : want(n[(size_t)i].kids[k])) { std::vector<int> q{(int)k}; q.insert(q.end(), pos.begin(), pos.end()); r.push_back({q, c}); }
            return r;
        };
        auto judge = [&](int i, const char *when)
        {
            auto &x = *n[(size_t)i].p;
            Occ w = want(i);
            bool ok = x.indices.size() == w.size() && x.positions.size() == w.size();
            for (size_t k = 0; ok && k < w.size(); k++) ok = x.positions[k] == w[k].first && x.indices[k] == w[k].second;
            if (!ok) { viol({"vars"}, std::string("an index ") + when + " lists " + std::to_string(x.indices.size()) + "/" + std::to_string(x.positions.size()) + " occurrences, not as they are (" + std::to_string(w.size()) + ")"); return; }
            std::set<int> vals;
            for (auto &o : w) vals.insert(*o.second);
            std::map<int, int> rank;
            for (int v : vals) rank.emplace(v, (int)rank.size());
            std::vector<int> norm, q;
            size_t h = 0, h2 = 0;
            Outcome o = sut([&] { auto z = x.normalize(); h = x.__hash__(); auto y = x.indices_normalized(); auto c = IndexVar::clone(n[(size_t)i].p); h2 = c->do_hashing(); bool e = x == c.get(); arena::Out out; norm = *z; q = *y; if (!e) h2 = h + 1; });
            bool same = o.ok && norm.size() == w.size() && norm == q && h == h2;
            for (size_t k = 0; same && k < w.size(); k++) same = norm[k] == rank[*w[k].second];
            if (!same) viol({"vars"}, std::string("the normalized form or hash of an index ") + when + " is wrong " + o.what);
        };
        int leaves = 1 + next(5), gen = next(2);
        std::vector<int> open;
        for (int i = 0; i < leaves; i++)
        {
            int l = fresh();
            if (next(5))
            {
                int v = next(9);
                Cell c;
                Outcome o = sut([&] { c = n[(size_t)l].p->add(v, {}); });
                if (!o.ok || !c || *c != v) { viol({"vars"}, "a variable cannot be added to an index: " + o.what); return; }
                n[(size_t)l].own = {c};
            }
            open.push_back(l);
        }
        auto over = [&](std::vector<int> kids)
        {
            int f = fresh();
            for (int k : kids)
            {
                Outcome o = sut([&] { IndexVar::connect(n[(size_t)f].p, n[(size_t)k].p, gen != 0); });
                if (!o.ok) viol({"vars"}, "indices cannot be connected: " + o.what);
                n[(size_t)f].kids.push_back(k);
                auto father = [](auto &w) -> const void *
                {
                    if constexpr (requires { w.lock(); }) return w.lock().get();
                    else if constexpr (requires { w.get(); }) return w.get();
                    else return w;
                };
                if (father(n[(size_t)k].p->predecessor) != n[(size_t)f].p.get()) viol({"vars"}, "a connected index does not know its father");
                if (gen) { judge(f, "connected with positions"); judge(k, "that was connected"); }
            }
            return f;
        };
        while (open.size() > 1)
        {
            size_t k = 1 + (size_t)next((long)open.size());
            std::vector<int> kids(open.end() - (long)k, open.end());
            open.resize(open.size() - k);
            open.insert(open.begin(), over(kids));
            if (n.size() > 16) break;
        }
        int root = open.size() == 1 ? open[0] : over(open);
        Outcome o = sut([&] { n[(size_t)root].p->build(); });
        if (!o.ok) viol({"vars"}, "an index cannot be built: " + o.what);
        for (size_t i = 0; i < n.size(); i++) judge((int)i, "built");
        for (int k = next(5); k >= 0; k--)
        {
            std::vector<int> pos;
            int x = root;
            while (!n[(size_t)x].kids.empty()) { int j = next((long)n[(size_t)x].kids.size()); pos.push_back(j); x = n[(size_t)x].kids[(size_t)j]; }
            int what = next(3), v = next(9);
            if (what == 0)
            {
                Cell c;
                o = sut([&] { c = n[(size_t)root].p->add(v, pos); });
                if (!o.ok || !c || *c != v) { viol({"vars"}, "a variable cannot be added to an index: " + o.what); return; }
                if (x == root) n[(size_t)x].own.clear();
                n[(size_t)x].own.push_back(c);
            }
            else if (what == 1) { o = sut([&] { n[(size_t)root].p->remove(pos); }); n[(size_t)x].own.clear(); }
            else if (!n[(size_t)x].own.empty()) *n[(size_t)x].own[0] = v;
            if (!o.ok) viol({"vars"}, "an index cannot be changed: " + o.what);
            o = sut([&] { n[(size_t)root].p->rebuild(); });
            if (!o.ok) viol({"vars"}, "an index cannot be built again: " + o.what);
            for (size_t i = 0; i < n.size(); i++) judge((int)i, "built again");
        }
        sut([&] { for (auto &x : n) { x.own.clear(); } for (size_t i = n.size(); i-- > 0;) n[i].p = nullptr; });
        CNT->add("index_trees");
    }
    // Any numbers at all for the variables of a clone, and its index built again.
    void step_renum(const Strs &a)
    {
        Handle *h = get((int)num(a, 0), "e");
        if (!h || !h->t->var || h->t->size > 120) return;
        pTerm c;
        Outcome o = sut([&] { c = Term::clone(h->term); });
        if (!o.ok || !c) { viol({"clone"}, "a clone cannot be made of " + cut(h->t->key) + ": " + o.what); return; }
        std::map<long, long> to[3];
        std::function<T(const T &)> remap = [&](const T &t) -> T
        {
            if (!t->var) return t;
            if (t->k == VAR) return var(t->vk, "", to[Numbering::idx(t->vk)][t->n]);
            std::vector<T> v;
            for (auto &x : t->a) v.push_back(remap(x));
            return t->k == STMT ? stmt(v[0], t->c, v[1]) : cmpd(t->c, v);
        };
        INDEXVAR::pIndexVar iv[3] = {c->_vars_independent, c->_vars_dependent, c->_vars_query};
        size_t at = 1;
        for (int k = 0; k < 3; k++)
        {
            std::set<int> vals;
            std::set<int *> done;
            for (auto &p : iv[k]->indices) vals.insert(*p);
            for (int v : vals) to[k][v] = num(a, at++ % std::max<size_t>(1, a.size()));
            for (auto &p : iv[k]->indices) if (done.insert(p.get()).second) *p = (int)to[k][*p];
        }
        T m = remap(h->t);
        same(c.get(), m, {"clone", "vars"}, "a clone with other numbers");
        o = sut([&] { for (auto &x : iv) x->rebuild(); });
        if (!o.ok) viol({"vars"}, "the index of a renumbered clone cannot be built again: " + o.what);
        check_vars_deep(*c, m);
        if (m->size < 60)
        {
            std::string s = render_term(*c, false, o);
            T g;
            try { g = with_anon(read_term(s, true)); } catch (Bad &) {}
            if (!o.ok || !g || g->key != m->key) viol({"vars", "clone", "render"}, "the renumbered clone " + cut(m->key) + " is shown as " + cut(s));
        }
        sut([&] { for (auto &x : iv) x = nullptr; c = pTerm(); });
        same(h->term.get(), h->t, {"clone", "alive"}, "the original of a renumbered clone");
        check_vars_deep(*h->term, h->t);
        CNT->add("renumbered");
    }
    // The tables themselves, filled and emptied key by key in an interpreter of their own.
    void step_table(const Strs &a)
    {
        struct Entry { std::string name; int count; };
        std::map<size_t, Entry> m;
        Interpreter *in = nullptr;
        Outcome o = sut([&] { in = new Interpreter(); });
        if (!o.ok || !in) { viol({"table"}, "an interpreter cannot be made: " + o.what); return; }
        std::map<size_t, pTerm *> obj;
        for (size_t i = 0; i + 1 < a.size(); i += 2)
        {
            size_t key = (size_t)num(a, i + 1) % 7;
            int what = (int)num(a, i) % 9;
            key = key * 0x100000001ull + 3;
            std::string name = "n" + std::to_string(key % 977);
            bool known = m.count(key) > 0, got = false, want = known;
            int cnt = 0;
            std::string n2;
            pTerm *p = nullptr;
            o = sut([&]
                {
                    std::string nm = name;
                    switch (what)
                    {
                    case 0: case 1: case 2: p = known ? obj[key] : new pTerm(new Term()); in->put(key, nm, p); got = want; break;
                    case 3: got = in->remove(key); break;
                    case 4: got = in->remove_by_name(nm); break;
                    case 5: got = in->erase(key); break;
                    case 6: got = in->check(key); break;
                    case 8: in->reset(); got = want; break;
                    default: got = in->check_by_name(nm);
                    }
                });
            if (!o.ok || got != want) viol({"table"}, "operation " + std::to_string(what) + " on a table of names answers " + (got ? "true" : "false") + " for a name that is " + (known ? "known " : "unknown ") + o.what);
            if (what < 3) { auto &e = m[key]; e.name = name; e.count++; obj[key] = p; }
            else if (what == 8) { m.clear(); obj.clear(); }
            else if (what < 5 || (what == 5 && known && --m[key].count == 0)) { m.erase(key); obj.erase(key); }
            bool ok = true;
            o = sut([&] { cnt = in->check_count(key); std::string nm = name; if (m.count(key)) { n2 = in->get(key); p = in->get_object(key); ok = in->get_by_name(nm) == key && p == obj[key]; arena::Out z; n2 = take(n2); } else ok = !in->check(key) && !in->check_by_name(nm); });
            if (!o.ok || !ok || cnt != (m.count(key) ? m[key].count : 0) || (m.count(key) && n2 != name)) viol({"table"}, "after operation " + std::to_string(what) + " a table of names counts " + std::to_string(cnt) + " uses of " + name + " instead of " + std::to_string(m.count(key) ? m[key].count : 0));
            { arena::Scope z; n2 = std::string(); }
            if (in->dictionary.size() != m.size() || in->dictionary_inv.size() != m.size() || in->objects.size() != m.size() || in->count.size() != m.size()) viol({"table"}, "after operation " + std::to_string(what) + " the tables of names have " + std::to_string(in->dictionary.size()) + "/" + std::to_string(in->dictionary_inv.size()) + "/" + std::to_string(in->objects.size()) + "/" + std::to_string(in->count.size()) + " entries instead of " + std::to_string(m.size()));
        }
        sut([&] { delete in; });
        CNT->add("tables");
    }
    // The container of components, filled and walked in every way it offers.
    void step_terms(const Strs &a)
    {
        int how = (int)num(a, 0), at = (int)num(a, 1);
        bool comm = how & 1;
        how = how / 2 % 6;
        std::vector<Handle *> hs;
        std::vector<T> ms;
        for (size_t i = 2; i < a.size() && hs.size() < 8; i++) if (Handle *h = get(atoi(a[i].c_str()), "e")) { if (h->t->size > 60) continue; hs.push_back(h); ms.push_back(h->t); }
        if (hs.empty()) return;
        pTerms ts, base;
        bool kept = true;
        Outcome o = sut([&]
            {
                std::vector<pTerm> v;
                for (auto h : hs) v.push_back(h->term);
                std::list<pTerm> l(v.begin(), v.end());
                if (how == 0) { ts = Terms::create(comm); for (auto &x : v) ts->push_back(x); }
                else if (how == 1) { ts = Terms::create(v, comm); }
                else if (how == 2) { ts = std::make_shared<Terms>(l, comm); }
                else if (how == 3) { base = std::make_shared<Terms>(v, false); ts = std::make_shared<Terms>(*base, comm); }
                else if (how == 4) { base = std::make_shared<Terms>(v, comm); ts = std::make_shared<Terms>(*base); base = nullptr; }
                else ts = v.size() == 1 ? std::make_shared<Terms>(std::initializer_list<pTerm>{v[0]}, comm) : v.size() == 2 ? std::make_shared<Terms>(std::initializer_list<pTerm>{v[0], v[1]}, comm) : std::make_shared<Terms>(v, comm);
                if (v.size() != hs.size() || l.size() != hs.size() || (base && base->terms_ordered.size() != hs.size())) kept = false;
                else for (size_t i = 0; i < hs.size(); i++) if (v[i].get() != hs[i]->term.get() || (base && base->terms_ordered[i].get() != v[i].get())) kept = false;
            });
        if (!o.ok || !ts) { viol({"setop", "create"}, "a container of terms cannot be filled: " + o.what); return; }
        if (!kept) viol({"setop", "create"}, "filling a container of terms changed what it was filled from");
        std::vector<T> want = comm ? as_set(ms) : ms;
        std::vector<Term *> order;
        if (comm) for (auto &x : ts->terms_unordered) order.push_back(x.get()); else for (auto &x : ts->terms_ordered) order.push_back(x.get());
        size_t n = 0, size = 0;
        bool bad = false;
        int back = -1;
        std::vector<Term *> walk, copy;
        o = sut([&]
            {
                size = ts->size();
                for (auto it = ts->begin(); it != ts->end() && walk.size() <= order.size(); it++) { arena::Out z; walk.push_back((*it).get()); }
                for (auto &x : *ts) if (n++ >= order.size()) break; else if (x.get() != order[n - 1]) bad = true;
                std::vector<pTerm> c = *ts;
                for (auto &x : c) { arena::Out z; copy.push_back(x.get()); }
                int k = order.empty() ? 0 : at % (int)order.size();
                auto p = ts->begin() + k, e = ts->end();
                auto q = p; // a copy walks on its own
                ++q;
                if ((*p).get() != order[(size_t)k] || p == q || !(p != q)) bad = true;
                if (k + 1 < (int)order.size() ? (*q).get() != order[(size_t)k + 1] : q != e) bad = true;
                auto b = e - (int)order.size();
                if (b != ts->begin() || !(b == ts->begin())) bad = true;
                if (((e - 1) + 1) != e) bad = true;
                back = (int)((*(e - 1)).get() == order.back());
                q = b; // and so does an assigned one
                if (q != ts->begin() || (*q).get() != order[0]) bad = true;
                ++q; ++q;
                if ((*b).get() != order[0]) bad = true;
            });
        if (!o.ok) viol({"setop", "heap"}, "walking a container of terms failed: " + o.what);
        if (size != want.size() || walk != order || copy != order || bad || back != 1) viol({"setop", "create"}, "a container of " + std::to_string(want.size()) + " terms is not walked as it is");
        std::vector<T> got;
        for (auto *x : order) got.push_back(extract(*x));
        if (comm) got = as_set(got);
        std::string g, e;
        for (auto &x : got) g += " " + x->key;
        for (auto &x : want) e += " " + x->key;
        if (g != e || order.size() != want.size()) viol({"setop", "create"}, "a container should hold" + cut(e) + " but holds" + cut(g));
        if (comm) check_sorted(*ts, {"setop", "order"});
        sut([&] { ts = base = nullptr; });
        CNT->add("containers");
    }
    void step_twin(int id, const Strs &a)
    {
        if (a.empty()) return;
        int n = 0;
        uintptr_t at = 0;
        if (arena::forced_base() < 0x100000000ull)
            for (long i = 0; i < 3000000 && !at; i++)
            {
                n = (int)(0x38000000 + i * 97);
                size_t h = UTILS::Hash{}(std::initializer_list<signed int>{(int)TERM::TermType::INTERVAL, n});
                uintptr_t c = address_for(h);
                if (arena::forced_ok(c)) at = c;
            }
        if (!at) n = 7;
        pTerm t = atom_at(at, a[0]), iv;
        Outcome o = sut([&] { iv = pTerm((Term *)new INTERVAL::Interval(n)); });
        if (!t || !iv) { viol({"create"}, "an atom cannot be built"); return; }
        if (iv->hash_value == t->hash_value) CNT->add("fault_hash_collision");
        else CNT->add("collision_missed");
        bool e1 = true, e2 = true, l1 = false, l2 = false;
        size_t size = 0;
        o = sut([&] { e1 = *t == *iv; e2 = *iv == *t; l1 = *t < *iv; l2 = *iv < *t; Terms s({t, iv}, true); size = s.size(); });
        if (!o.ok) viol({"eq"}, "comparing failed: " + o.what);
        if (e1 || e2) viol({"eq"}, "an atom equals an interval");
        if (l1 == l2) viol({"order"}, "an atom and an interval are not ordered");
        if (size != 2) viol({"order", "setop"}, "a set of an atom and an interval has " + std::to_string(size) + " elements");
        std::vector<T> both{atom(a[0]), ival(n)};
        pTerm c;
        o = sut([&] { std::vector<pTerm> v{t, iv}; c = COMPOUND::Compound::create(CONNECTOR::ExtensionalSet, v); });
        if (!o.ok || !c) viol({"create", "eq"}, "a set of an atom and an interval cannot be built: " + o.what);
        else same(c.get(), make(EXTSET, both), {"struct", "eq", "create"}, "a set of an atom and an interval");
        sut([&] { c = pTerm(); iv = pTerm(); });
        made(id + 1, t, atom(a[0]), "an atom");
    }

    void step_fill(const Strs &a)
    {
        int n = (int)std::min(num(a, 0), 400L), order = (int)num(a, 2);
        std::vector<pTask> v;
        std::set<Term *> atoms;
        size_t before = I().dictionary.size();
        std::set<std::string> old = known(I());
        size_t fresh = 0;
        for (int i = 0; i < n; i++)
        {
            std::string s = "f" + std::to_string(i), p = "g" + std::to_string(i % 17), line = "<" + s + " --> " + p + ">.";
            fresh += !old.count(s);
            if (i < 17) fresh += !old.count(p);
            pTask t;
            Outcome o = sut([&] { t = parser((int)num(a, 1)).parse_task(line); });
            if (!o.ok || !t) { viol({"accept"}, "a well-formed line was rejected: " + line); return; }
            T m = stmt(atom(s), INH, atom(p));
            same(t->sentence->term.get(), m, {"struct"}, line);
            Term *x = t->sentence->term->subject.get();
            if (!atoms.insert(x).second) viol({"identity"}, "two names denote the same atom, among " + std::to_string(i + 1) + " names");
            ids_seen.insert(*t->sentence->stamp->evidential_base->_set->begin());
            arena::Scope z;
            v.push_back(t);
        }
        if (I().dictionary.size() != before + fresh && maybe.empty()) viol({"table", "identity"}, "after " + std::to_string(fresh) + " new names the interpreter knows " + std::to_string(I().dictionary.size()) + " instead of " + std::to_string(before + fresh));
        for (int i = 0; i < n; i++)
        {
            std::string s = "f" + std::to_string(i);
            if (atom_name(*v[(size_t)i]->sentence->term->subject) != s) { viol({"identity", "alive"}, "the atom " + s + " is shown as " + atom_name(*v[(size_t)i]->sentence->term->subject)); break; }
        }
        gen::Rng r((uint64_t)n * 31 + (uint64_t)order);
        for (int k = 0; k < n; k++)
        {
            int i = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k * 2 < n ? k * 2 : (k * 2 - n) | 1) : k;
            if (order == 3 || order == 2)
            {
                if (order == 3) i = (int)r.below((uint64_t)n);
                while (!v[(size_t)(i % n)]) i++;
                i %= n;
            }
            Outcome o = sut([&] { v[(size_t)i] = pTask(); });
            if (!o.ok) viol({"alive", "heap"}, "releasing a task failed: " + o.what);
        }
        sut([&] { std::vector<pTask>().swap(v); });
        CNT->add("fault_name_flood");
    }

    void step(int id, const Strs &args, const std::string &text)
    {
        const std::string &op = args[0];
        Strs a(args.begin() + 1, args.end());
        if (op == "oom") { pending_oom = num(a, 0); pending_sticky = num(a, 1) != 0; return; }
        if (pending_oom >= 0)
        {
            arena::fail_new(pending_oom, pending_sticky);
            oom_armed = true;
            pending_oom = -1;
        }
        struct Done { ~Done() { if (oom_armed) arena::fail_new(-1, false); oom_armed = false; } } done;
        if (op.compare(0, 3, "py_") == 0) { if (pymod) step_py(id, args, text); return; }
        if (op == "parse") step_parse(id, a, text);
        else if (op == "reparse") step_reparse(a);
        else if (op == "raw") step_raw(id, a, text);
        else if (op == "tabs") step_tabs(a, text);
        else if (op == "bad") step_bad(a, text);
        else if (op == "drop") release((int)num(a, 0));
        else if (op == "copy")
        {
            Handle *h = get((int)num(a, 0), "teb");
            if (!h) return;
            Handle &c = put(id, h->kind, h->t);
            Outcome o = sut([&] { c.task = h->task; c.term = h->term; c.bag = h->bag; });
            if (!o.ok) viol({"alive"}, "copying a reference failed: " + o.what);
            c.m = h->m; c.sm = h->sm; c.bagm = h->bagm; c.bagg = h->bagg; c.group = h->group; c.sentence_truth = h->sentence_truth;
        }
        else if (op == "assign")
        {
            Handle *x = get((int)num(a, 0), "te"), *y = get((int)num(a, 1), "te");
            if (!x || !y || x->kind != y->kind) return;
            Outcome o = sut([&] { if (x->kind == 't') x->task = y->task; else x->term = y->term; });
            if (!o.ok) viol({"alive"}, "assigning a reference failed: " + o.what);
            x->t = y->t; x->m = y->m; x->sm = y->sm; x->group = y->group; x->sentence_truth = y->sentence_truth;
        }
        else if (op == "swap")
        {
            Handle *x = get((int)num(a, 0), "e"), *y = get((int)num(a, 1), "e");
            if (!x || !y) return;
            Outcome o = sut([&] { std::swap(x->term, y->term); });
            if (!o.ok) viol({"alive"}, "swapping references failed: " + o.what);
            if (x != y) { std::swap(x->t, y->t); std::swap(x->group, y->group); }
        }
        else if (op == "sub")
        {
            Handle *h = get((int)num(a, 0), "te");
            if (!h || a.size() < 2) return;
            T m = h->t;
            pTerm t;
            Outcome o = sut([&] { if (h->kind == 't') t = h->task.term(); else t = h->term; });
            if (!o.ok || !t) { viol({"alive"}, "taking the term of a task failed: " + o.what); return; }
            if (a[1] != "-")
            {
                std::stringstream ss(a[1]);
                std::string x;
                while (std::getline(ss, x, '.'))
                {
                    size_t i = (size_t)atol(x.c_str());
                    if (i >= m->a.size()) break;
                    bool ok;
                    m = m->a[i];
                    pTerm c = component(*t, m, ok);
                    if (!ok) { viol({"alive", "struct"}, "a term has lost its component " + cut(m->key)); sut([&] { t = pTerm(); }); return; }
                    sut([&] { t = c; c = pTerm(); });
                }
            }
            Handle &c = put(id, 'e', m);
            sut([&] { c.term = t; t = pTerm(); });
            c.group = h->group;
        }
        else if (op == "atom")
        {
            pTerm t;
            Outcome o = sut([&] { t = Term::create(text.c_str()); });
            if (o.oom && !o.ok)
            {
                maybe.insert(text);
                check_all(false);
                o = sut([&] { t = Term::create(text.c_str()); });
            }
            if (!o.ok || !t) { viol({"create", "oom"}, "an atom cannot be made: " + o.what); return; }
            made(id, t, atom(text), "atom");
        }
        else if (op == "anon")
        {
            pTerm t;
            Outcome o = sut([&] { t = Term::create(); });
            if (!o.ok || !t) { viol({"create"}, "an atom cannot be made: " + o.what); return; }
            anon["@" + std::to_string(id)] = t.get();
            made(id, t, atom("@" + std::to_string(id)), "anonymous atom");
        }
        else if (op == "atom2")
        {
            if (!interp2) sut([&] { interp2 = new Interpreter(); });
            pTerm t;
            Outcome o = sut([&] { t = Term::create(text.c_str(), interp2); });
            if (!o.ok || !t) { viol({"create"}, "an atom cannot be made: " + o.what); return; }
            for (auto &[i, h] : H)
            {
                if (h->kind == '2' && (h->term.get() == t.get()) != (h->t->name == text)) viol({"identity"}, "in a private interpreter, " + cut(text) + " and " + cut(h->t->name) + " are confused");
                if (h->kind == 'e' && h->term.get() == t.get()) viol({"identity"}, "two interpreters share an atom");
            }
            Handle &h = put(id, '2', atom(text));
            sut([&] { h.term = t; t = pTerm(); });
            std::string n;
            sut([&] { std::string x = interp2->interpret(*h.term); arena::Out z; n = take(x); });
            if (n != text) viol({"identity", "render"}, "a private interpreter shows the atom " + cut(text) + " as " + cut(n));
        }
        else if (op == "stmt")
        {
            int cop = (int)num(a, 0);
            Handle *x = get((int)num(a, 1), "e"), *y = get((int)num(a, 2), "e");
            if (!x || !y || cop < 0 || cop >= NCOP) return;
            T m = model::stmt(x->t, cop, y->t);
            pTerm t;
            auto f = [&] { if (num(a, 3) == 1) t = pTerm(new STATEMENT::Statement(x->term, (Copula_)cop, y->term)); else t = STATEMENT::Statement::create(x->term, (Copula_)cop, y->term); };
            Outcome o = sut(f);
            if (o.oom && !o.ok) { check_all(false); o = sut(f); }
            if (!o.ok || !t) { viol({"create", "oom"}, "a statement cannot be built: " + cut(m->key) + " " + o.what); return; }
            made(id, t, m, "a statement");
            if (((STATEMENT::Statement &)*H[id]->term).is_commutative != (cop == SIM || cop == EQV || cop == CEQV) || (bool)H[id]->term->is_higher_order != (cop >= IMP)) viol({"create"}, "a statement is marked wrongly: " + cut(m->key));
            as_parsed(*H[id]->term, m);
            CNT->add("built");
        }
        else if (op == "cmpd")
        {
            int con = (int)num(a, 0), how = (int)num(a, 1);
            if (con < 0 || con >= NCON) return;
            std::vector<Handle *> hs;
            std::vector<T> ms;
            for (size_t i = 2; i < a.size(); i++) { Handle *h = get(atoi(a[i].c_str()), "e"); if (!h) return; hs.push_back(h); ms.push_back(h->t); }
            if (hs.empty()) return;
            T m = make(con, ms);
            pTerm t;
            bool kept = true; // what was handed over is still the caller's
            auto f = [&]
            {
                std::vector<pTerm> v;
                for (auto h : hs) v.push_back(h->term);
                auto whole = [&](const auto &c)
                {
                    if (c.size() != hs.size()) { kept = false; return; }
                    size_t i = 0;
                    for (auto &x : c) if (x.get() != hs[i++]->term.get()) kept = false;
                };
                if (how == 1) { std::list<pTerm> l(v.begin(), v.end()); t = COMPOUND::Compound::create((Connector_)con, l); whole(l); }
                else if (how == 2) { pTerms ts = Terms::create(v, con_commutative(con)); size_t n = ts->size(); t = COMPOUND::Compound::create((Connector_)con, ts); kept = kept && ts && ts->size() == n; }
                else if (how == 3) { pTerms ts = Terms::create(v, false); t = COMPOUND::Compound::create((Connector_)con, ts); kept = kept && ts; if (kept) whole(ts->terms_ordered); }
                else if (how == 4 && v.size() < 4)
                {
                    Connector_ c = (Connector_)con;
                    if (v.size() == 1) t = pTerm(new COMPOUND::Compound(c, v[0]));
                    else if (v.size() == 2) t = pTerm(new COMPOUND::Compound(c, {v[0], v[1]}));
                    else t = pTerm(new COMPOUND::Compound(c, {v[0], v[1], v[2]}));
                }
                else if (how == 5 && con == EXTSET && v.size() == 2) t = COMPOUND::Compound::ExtensionalSet({v[0], v[1]});
                else if (how == 5 && con == INTSET && v.size() == 2) t = COMPOUND::Compound::IntensionalSet({v[0], v[1]});
                else { t = COMPOUND::Compound::create((Connector_)con, v); whole(v); }
            };
            Outcome o = sut(f);
            if (o.oom && !o.ok) { check_all(false); o = sut(f); }
            if (!kept) viol({"create"}, "building a compound changed the components it was given");
            if (!o.ok || !t) { viol({"create", "oom"}, "a compound cannot be built: " + cut(m->key) + " " + o.what); return; }
            made(id, t, m, "a compound");
            as_parsed(*H[id]->term, m);
            CNT->add("built");
        }
        else if (op == "clone")
        {
            Handle *h = get((int)num(a, 0), "e");
            if (!h) return;
            pTerm t;
            auto f = [&] { t = Term::clone(h->term); };
            Outcome o = sut(f);
            if (o.oom && !o.ok) { check_all(false); o = sut(f); }
            if (!o.ok || !t) { viol({"clone", "oom"}, "a clone cannot be made of " + cut(h->t->key) + ": " + o.what); return; }
            Handle &c = put(id, 'e', h->t);
            sut([&] { c.term = t; t = pTerm(); });
            c.group = h->t->var ? ++groups : h->group;
            same(c.term.get(), h->t, {"clone"}, "a clone");
            bool e1 = false, e2 = false;
            sut([&] { e1 = *c.term == *h->term; e2 = *h->term == *c.term; });
            if (!e1 || !e2) viol({"clone"}, "a clone differs from its original: " + cut(h->t->key));
            if (c.term->complexity != h->term->complexity || c.term->__hash__() != h->term->__hash__() || c.term->is_operation != h->term->is_operation || c.term->is_higher_order != h->term->is_higher_order) viol({"clone"}, "a clone has other measures than its original: " + cut(h->t->key));
            if (h->t->size < 200) check_vars_deep(*c.term, h->t);
            CNT->add("cloned");
        }
        else if (op == "rename")
        {
            Handle *h = get((int)num(a, 0), "e");
            if (!h || a.size() < 3 || count_group(h->group) > 1) return;
            char k = a[1][0];
            std::set<long> rk[3];
            var_ranks(h->t, rk);
            int x = Numbering::idx(k);
            if (rk[x].empty()) return;
            long d = num(a, 2);
            auto &iv = x == 0 ? h->term->_vars_independent : x == 1 ? h->term->_vars_dependent : h->term->_vars_query;
            std::set<int *> done;
            for (auto &p : iv->indices) if (done.insert(p.get()).second) *p += (int)d;
            h->t = shift(h->t, k, d);
            same(h->term.get(), h->t, {"clone", "vars"}, "a renumbered term");
            if (h->t->size < 200) check_vars_deep(*h->term, h->t);
            if (h->t->size < 60)
            {
                Outcome o;
                std::string s = render_term(*h->term, false, o);
                T g;
                try { g = with_anon(read_term(s, true)); } catch (Bad &) {}
                if (!o.ok || !g || g->key != h->t->key) viol({"vars", "clone", "render"}, "the renumbered term " + cut(h->t->key) + " is shown as " + cut(s));
            }
            CNT->add("renamed");
        }
        else if (op == "rebuild")
        {
            Handle *h = get((int)num(a, 0), "e");
            if (!h) return;
            auto f = [&] { h->term->_vars_independent->rebuild(); h->term->_vars_dependent->rebuild(); h->term->_vars_query->rebuild(); };
            Outcome o = sut(f);
            if (!o.ok && !o.oom) viol({"vars", "oom"}, "the index of " + cut(h->t->key) + " cannot be built again: " + o.what);
            same(h->term.get(), h->t, {"vars", "oom"}, "a term with its index built again");
            if (h->t->size < 200) check_vars_deep(*h->term, h->t);
            check_all(true);
            CNT->add("rebuilt");
        }
        else if (op == "force") step_force(a);
        else if (op == "terms") step_terms(a);
        else if (op == "index") step_index(a);
        else if (op == "renum") step_renum(a);
        else if (op == "table") step_table(a);
        else if (op == "render") { Handle *h = get((int)num(a, 0), "te"); if (h && h->t->size < 1500) check_text(*h, num(a, 1) != 0); }
        else if (op == "eq") check_eq();
        else if (op == "sent")
        {
            Handle *x = get((int)num(a, 0), "e");
            if (!x) return;
            int pn = (int)num(a, 1) & 3, mode = (int)num(a, 2);
            pSentence s;
            EVIDENCE::pBase base;
            long at = (long)clock_ + 7 - (long)(id % 5) * 4;
            float f = a.size() > 3 ? (float)num(a, 3) / 1000 : 0.25f, c = a.size() > 4 ? (float)num(a, 4) / 1000 : 0.5f;
            bool tr = pn == 0 || pn == 2;
            double wf = f, wc = c;
            bool has_truth = mode != 1;
            Outcome o = sut([&]
                {
                    auto p = (SENTENCE::PUNCTUATION::Punctuation)pn;
                    auto own = [&](TRUTH::pTruth t, SENTENCE::pStamp st) -> SENTENCE::Sentence *
                    {
                        if (pn == 0) return new SENTENCE::Judgement(x->term, t, st);
                        if (pn == 1) return new SENTENCE::Question(x->term, st);
                        if (pn == 2) return new SENTENCE::Goal(x->term, t, st);
                        return new SENTENCE::Quest(x->term, st);
                    };
                    if (mode == 0) s = SENTENCE::Sentence::create(x->term, p, TRUTH::Truth::create(f, c), SENTENCE::Stamp::create(true));
                    else if (mode == 1) s = SENTENCE::Sentence::create(x->term, p);
                    else if (mode == 2) s = SENTENCE::Sentence::create(x->term, p, TRUTH::Truth::create(f, c), SENTENCE::Stamp::create((signed int)at));
                    else if (mode == 3) s = pSentence(own(nullptr, nullptr)); // the configured truth, eternal
                    else if (mode == 4) s = pSentence(own(TRUTH::Truth::create(f, c), SENTENCE::Stamp::create((signed int)at, (signed int)clock_, -1, nullptr, false)));
                    else if (mode >= 6)
                    {
                        base = EVIDENCE::pBase(new Base(std::set<size_t>({GLOBAL::get_input_id()})));
                        base->add(GLOBAL::get_input_id());
                        s = pSentence(own(TRUTH::Truth::create(f, c), SENTENCE::Stamp::create((signed int)at, (signed int)clock_ - id % 3, id % 4, base, mode == 6)));
                    }
                    else { auto st = SENTENCE::Stamp::create((signed int)at); st->eternalize(); s = pSentence(own(TRUTH::Truth::create(f, c), st)); }
                });
            if (mode == 3) { wf = KN.v[0]; wc = KN.v[1]; has_truth = tr; }
            if (mode > 3 && !tr) has_truth = false;
            if (!o.ok || !s) { viol({"create"}, "a sentence cannot be built: " + o.what); return; }
            T m = x->t;
            int g = x->group;
            Handle &h = put(id, 's', m);
            sut([&] { h.sent = s; s = pSentence(); });
            h.group = g;
            h.m.punct = PUNCT[pn];
            h.sentence_truth = has_truth;
            h.m.t[0] = wf; h.m.t[1] = wc;
            if (has_truth && tr && (!h.sent->truth || !near(h.sent->truth->f, wf) || !near(h.sent->truth->c, wc))) viol({"numbers", "create"}, "a built sentence has another truth than it was given");
            h.sm = std::make_shared<StampModel>();
            h.sm->eternal = mode != 2 && mode != 4 && mode != 7;
            h.sm->occ = at; h.sm->created = (long)clock_ - (mode >= 6 ? id % 3 : 0);
            if (mode >= 6)
            {
                h.sm->ids = ids_of(*base);
                for (auto i : h.sm->ids) if (!ids_seen.insert(i).second) viol({"ids"}, "the evidential id " + std::to_string(i) + " was given to an earlier input");
                if (h.sm->ids.size() != 2 || h.sent->stamp->evidential_base != base) viol({"ids", "merge"}, "a stamp does not carry the evidential base it was given");
                sut([&] { base = nullptr; });
            }
            if (h.sent->stamp && h.sent->stamp->t_put != (mode >= 6 ? id % 4 : -1)) viol({"clock"}, "a stamp has another time of being put than it was given");
            check_stamp(h.sent->stamp, *h.sm, "a new sentence", mode < 6);
            if (h.t->size < 300) check_text(h, id & 1);
        }
        else if (op == "tick" || op == "clock")
        {
            unsigned long now = op == "tick" ? clock_ + (unsigned long)num(a, 0) : (unsigned long)num(a, 0);
            if (now > 2147480000ul) now = 0;
            if (now < clock_) CNT->add("fault_clock_back");
            else if (now - clock_ > 1000) CNT->add("fault_clock_jump");
            CNT->add("sim_ticks", now > clock_ ? now - clock_ : 0);
            clock_ = now;
            GLOBAL::time = now;
            for (auto &[i, h] : H)
                if ((h->kind == 't' || h->kind == 's') && h->t->size < 40)
                {
                    auto &st = h->kind == 't' ? h->task->sentence->stamp : h->sent->stamp;
                    if ((int)st->tense() != tense_now(*h->sm)) viol({"clock"}, "at time " + std::to_string(clock_) + " a sentence stamped " + std::to_string(h->sm->occ) + " has the tense " + std::to_string((int)st->tense()));
                }
        }
        else if (op == "knob") { int i = (int)num(a, 0); if (i < 0 || i > 13) return; set_knob(i, (double)std::max(1L, std::min(999L, num(a, 1))) / (i == 2 ? 100.0 : 1000.0)); CNT->add("settings"); }
        else if (op == "weigh") // the numbers of a task are its owner's to change
        {
            Handle *x = get((int)num(a, 0), "t");
            if (!x) return;
            auto &task = *x->task;
            double v[3];
            for (size_t i = 0; i < 3; i++) v[i] = (double)num(a, 2 + i) / 1000.0;
            bool truth = num(a, 1) == 1 && task.sentence->truth;
            if (truth) { for (int i = 0; i < 2; i++) v[i] = unit(v[i]); task.sentence->truth->f = (float)v[0]; task.sentence->truth->c = (float)v[1]; }
            else { task.budget->priority = v[0]; task.budget->durability = v[1]; task.budget->quality = (float)v[2]; }
            for (auto &[i, h] : H)
                if (h->kind == 't' && h->task.get() == &task)
                    for (int k = 0; k < (truth ? 2 : 3); k++) (truth ? h->m.t : h->m.b)[k] = v[k];
            if (x->t->size < 300) check_text(*x, id & 1);
        }
        else if (op == "dur") { CONFIG::temporal_duration = (decltype(CONFIG::temporal_duration + 0))std::max(1L, num(a, 0)); }
        else if (op == "maxbase") { CONFIG::maximum_evidential_base_length = (decltype(CONFIG::maximum_evidential_base_length + 0))std::max(0L, num(a, 0)); }
        else if (op == "inputs") step_inputs(a);
        else if (op == "merge") step_merge(a);
        else if (op == "base") step_base(a);
        else if (op == "newparser")
        {
            int i = (int)num(a, 0);
            if (i < 1 || i > 3 || parsers[i]) return;
            Outcome o = sut([&] { parsers[i] = new NarseseParser(); });
            if (!o.ok) viol({"accept", "heap"}, "a parser cannot be made: " + o.what);
        }
        else if (op == "delparser")
        {
            int i = (int)num(a, 0);
            if (i < 1 || i > 3 || !parsers[i]) return;
            NarseseParser *p = parsers[i];
            parsers[i] = nullptr;
            sut([&] { delete p; });
        }
        else if (op == "reset")
        {
            std::vector<int> ps;
            for (auto &[i, h] : H) if (h->kind == 'p') ps.push_back(i);
            for (int i : ps) release(i);
            collect_garbage();
            cycle_terms.clear();
            Outcome o = sut([&] { I().reset(); });
            if (!o.ok) viol({"table", "alive"}, "reset failed: " + o.what);
            maybe.clear();
            for (auto &[i, h] : H) if (h->kind != '2') h->kind = 'o';
            CNT->add("fault_reset");
        }
        else if (op == "bag") put(id, 'b', nullptr);
        else if (op == "push" || op == "put")
        {
            Handle *b = get((int)num(a, 0), "b"), *e = get((int)num(a, 1), "e");
            if (!b || !e) return;
            size_t i = (size_t)num(a, 2), n = b->bag.size();
            if (op == "put" && !n) return;
            Outcome o = sut([&] { if (op == "push") b->bag.insert(b->bag.begin() + (long)(i % (n + 1)), e->term); else b->bag[i % n] = e->term; });
            if (!o.ok) viol({"alive"}, "a container of terms failed: " + o.what);
            if (op == "push") { b->bagm.insert(b->bagm.begin() + (long)(i % (n + 1)), e->t); b->bagg.insert(b->bagg.begin() + (long)(i % (n + 1)), e->group); }
            else { b->bagm[i % n] = e->t; b->bagg[i % n] = e->group; }
        }
        else if (op == "erase" || op == "pop" || op == "reverse" || op == "clear")
        {
            Handle *b = get((int)num(a, 0), "b");
            if (!b || b->bag.empty()) return;
            size_t i = op == "pop" ? b->bag.size() - 1 : (size_t)num(a, 1) % b->bag.size();
            Outcome o = sut([&]
                {
                    if (op == "reverse") std::reverse(b->bag.begin(), b->bag.end());
                    else if (op == "clear") b->bag.clear();
                    else if (op == "pop") b->bag.pop_back();
                    else b->bag.erase(b->bag.begin() + (long)i);
                });
            if (!o.ok) viol({"alive"}, "a container of terms failed: " + o.what);
            if (op == "reverse") { std::reverse(b->bagm.begin(), b->bagm.end()); std::reverse(b->bagg.begin(), b->bagg.end()); }
            else if (op == "clear") { b->bagm.clear(); b->bagg.clear(); }
            else { b->bagm.erase(b->bagm.begin() + (long)i); b->bagg.erase(b->bagg.begin() + (long)i); }
        }
        else if (op == "churn")
        {
            Task m;
            try { m = read_task(text); }
            catch (Bad &) { return; }
            int n = (int)std::min(num(a, 0), 50L);
            for (int i = 0; i < n; i++)
            {
                std::string in = text;
                pTask t;
                Outcome o = sut([&] { t = parser((int)num(a, 1)).parse_task(in); });
                if (!o.ok || !t) { viol({"accept", "outcome"}, "a well-formed line was rejected: " + cut(text) + " " + o.what); return; }
                same(t->sentence->term.get(), m.term, {"struct", "alive"}, "line " + cut(text));
                ids_seen.insert(*t->sentence->stamp->evidential_base->_set->begin());
                o = sut([&] { t = pTask(); });
                if (!o.ok) viol({"alive", "table"}, "releasing a task failed: " + o.what);
            }
            CNT->add("churned", (uint64_t)n);
        }
        else if (op == "fill") step_fill(a);
        else if (op == "setop") step_setop(a);
        else if (op == "collide") step_collide(id, a);
        else if (op == "twin") step_twin(id, a);
        else if (op == "ival")
        {
            // arithmetic on intervals: the sum is the interval of the sum, also where it is made in place
            int x = (int)num(a, 0), y = (int)num(a, 1);
            pTerm p, q, w, z;
            bool e[4] = {false, false, true, true};
            size_t h[3] = {0, 1, 2};
            int v[2] = {0, 0};
            Outcome o = sut([&]
                {
                    using INTERVAL::Interval;
                    auto *i = new Interval(x);
                    p = pTerm((Term *)i);
                    q = pTerm((Term *)new Interval(y));
                    w = pTerm((Term *)new Interval(x + y));
                    z = pTerm((Term *)new Interval(*i + (Interval &)*q));
                    if (y) e[2] = *p == *w;
                    *i += (Interval &)*q;
                    v[0] = (int)*i; v[1] = (int)(Interval &)*z;
                    e[0] = *p == *w; e[1] = *z == *w; e[3] = x != 0 && *p == *q;
                    h[0] = p->hash_value; h[1] = z->hash_value; h[2] = w->hash_value;
                });
            if (!o.ok) viol({"eq"}, "adding intervals failed: " + o.what);
            else if (v[0] != x + y || v[1] != x + y) viol({"eq", "create"}, "the sum of the intervals " + std::to_string(x) + " and " + std::to_string(y) + " is " + std::to_string(v[0]) + " in place and " + std::to_string(v[1]) + " aside");
            else if (!e[0] || !e[1] || h[0] != h[2] || h[1] != h[2]) viol({"eq", "hash"}, "the sum of the intervals " + std::to_string(x) + " and " + std::to_string(y) + " is not the interval " + std::to_string(x + y));
            else if ((y && e[2]) || e[3]) viol({"eq"}, "different intervals are equal: " + std::to_string(x) + ", " + std::to_string(y) + ", " + std::to_string(x + y));
            sut([&] { p = q = w = z = pTerm(); });
        }
        else if (op == "parse_oomm")
        {
            int status = 0;
            auto attempt = [&](long n)
            {
                return forked([&]
                {
                    std::string in = text;
                    pTask t;
                    NarseseParser &p = parser((int)num(a, 1));
                    arena::fail_malloc(n);
                    Outcome o = sut([&] { t = p.parse_task(in); });
                    bool fired = arena::fail_fired();
                    arena::fail_malloc(-1);
                    std::string s = fired ? "F" : "N";
                    if (!o.ok) return s + "E";
                    if (!t) return s + "R";
                    return s + "A" + (t->sentence && t->sentence->term ? extract(*t->sentence->term)->key : "broken");
                }, status);
            };
            std::string r = attempt(num(a, 0));
            if (WIFEXITED(status) && WEXITSTATUS(status) == 1) { CNT->add("fault_malloc_exit"); return; }
            if (!WIFEXITED(status) || WEXITSTATUS(status)) die_like(status, "a parser that ran out of memory");
            if (r.size() < 2) { viol({"oom"}, "a parser that ran out of memory left no answer"); return; }
            if (r[0] != 'F') return;
            CNT->add("fault_malloc_survived");
            std::string w = attempt(-1);
            if (!WIFEXITED(status) || WEXITSTATUS(status)) die_like(status, "a parser with enough memory");
            if (w.size() < 2 || r.substr(1) != w.substr(1)) viol({"oom"}, "with one failing allocation the line " + cut(text) + " gave " + cut(r) + " instead of " + cut(w));
        }
        else if (op != "config") { fprintf(stderr, "SIM: unknown step %s\n", op.c_str()); _exit(95); }
    }

    // ---- Python ----
    PyObject *py_text(const std::string &s)
    {
        PyObject *u = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr);
        if (!u) { PyErr_Clear(); u = PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size()); }
        return u;
    }
    PyObject *py_call(const char *name, std::initializer_list<PyObject *> args, Outcome &o)
    {
        PyObject *f = PyObject_GetAttrString(pymod, name);
        if (!f) { PyErr_Clear(); o = Outcome(); o.what = std::string("no attribute ") + name; return nullptr; }
        PyObject *t = PyTuple_New((Py_ssize_t)args.size());
        Py_ssize_t i = 0;
        for (auto x : args) { Py_INCREF(x); PyTuple_SET_ITEM(t, i++, x); }
        PyObject *r = pycall([&] { return PyObject_CallObject(f, t); }, o);
        Py_DECREF(t);
        Py_DECREF(f);
        return r;
    }
    void py_adopt(int id, PyObject *r, const T &m, char pk, const std::string &who)
    {
        Handle &h = put_py(id, r, m, pk);
        if (pk == 'e')
        {
            pTerm *t = py_term(h);
            if (!t) { viol({"py"}, who + " is no term"); return; }
            same(t->get(), m, {"py"}, who);
            if (m->size < 200) check_vars_deep(**t, m);
        }
    }
    pTask *py_task(Handle &h)
    {
        try { return &py::handle(h.obj).cast<pTask &>(); }
        catch (...) { return nullptr; }
    }
    pSentence *py_sentence(Handle &h)
    {
        try { return &py::handle(h.obj).cast<pSentence &>(); }
        catch (...) { return nullptr; }
    }
    // A truth ('T') or budget ('B') held by Python shows the numbers it holds.
    void check_py_number(Handle &h, const char *when)
    {
        bool T_ = h.pk == 'T';
        static const char *tn[] = {"f", "c", "k"}, *bn[] = {"p", "d", "q"};
        double *v = T_ ? h.m.t : h.m.b;
        Outcome o;
        auto attr = [&](const char *n, double want)
        {
            PyObject *r = pycall([&] { return PyObject_GetAttrString(h.obj, n); }, o);
            double x = r ? PyFloat_AsDouble(r) : 0;
            if (!r || PyErr_Occurred()) { std::string e = py_error(); viol({"py"}, std::string("attribute ") + n + " raised " + e); }
            else if (!near(x, want)) viol({"py"}, std::string("attribute ") + n + " of a " + (T_ ? "truth " : "budget ") + when + " is " + fmt2(x, 6) + " instead of " + fmt2(want, 6));
            Py_XDECREF(r);
        };
        for (int i = 0; i < 3; i++) attr(T_ ? tn[i] : bn[i], v[i]);
        if (T_) attr("e", v[1] * (v[0] - 0.5) + 0.5);
        PyObject *r = pycall([&] { return PyObject_Repr(h.obj); }, o);
        std::string s = py_str(r), e;
        if (!r) { e = py_error(); viol({"py"}, "repr() of numbers failed: " + e + o.what); return; }
        Py_DECREF(r);
        double x[3];
        int n = 0;
        sscanf(s.c_str(), T_ ? "<Truth: %%%lf, %lf%% (k=%lf)>%n" : "<Budget: $%lf;%lf;%lf$>%n", &x[0], &x[1], &x[2], &n);
        bool ok = n == (int)s.size();
        for (int i = 0; ok && i < 3; i++) ok = i == 2 && T_ ? near(x[i], v[i]) : std::fabs(x[i] - v[i]) < 0.005 + 1e-4;
        if (ok && T_) { std::string w = "<Truth: %" + fmt2(x[0], 2) + ", " + fmt2(x[1], 2) + "% (k="; ok = s.compare(0, w.size(), w) == 0; }
        if (ok && !T_) ok = s == "<Budget: $" + fmt2(x[0], 2) + ";" + fmt2(x[1], 2) + ";" + fmt2(x[2], 2) + "$>";
        if (!ok) viol({"py"}, std::string("repr of a ") + (T_ ? "truth " : "budget ") + fmt2(v[0], 4) + ";" + fmt2(v[1], 4) + ";" + fmt2(v[2], 4) + " " + when + " is " + cut(s));
        CNT->add("py_numbers");
    }
    void step_py(int id, const Strs &args, const std::string &text)
    {
        const std::string &op = args[0];
        Strs a(args.begin() + 1, args.end());
        Outcome o;
        auto P = [&](size_t i, const char *kinds) -> Handle *
        {
            Handle *h = get((int)num(a, i), "p");
            if (!h) return nullptr;
            for (const char *k = kinds; *k; k++) if (h->pk == *k) return h;
            return nullptr;
        };
        // When memory runs out while pybind11 itself registers a new object, pybind11 forgets to destroy what it holds:
        // after a constructor failed that way, the names inside may stay known.
        if (op == "py_parse" || op == "py_bad" || op == "py_raw")
        {
            Task m;
            bool good = true;
            if (op == "py_parse") { try { m = read_task(text); } catch (Bad &) { return; } }
            PyObject *s = py_text(text);
            PyObject *r = py_call("parse", {s}, o);
            std::string type, e;
            if (!r) e = py_error(&type);
            if (o.oom && !r)
            {
                maybe_names(text);
                if (type != "RuntimeError" && type != "MemoryError") viol({"py", "oom"}, "running out of memory raised " + type + " " + e + o.what);
                check_all(false);
                if (op == "py_parse")
                {
                    r = py_call("parse", {s}, o);
                    if (!r) e = py_error(&type);
                }
            }
            Py_DECREF(s);
            if (r == Py_None) { viol({"py"}, "parse() returned None for " + cut(text)); Py_DECREF(r); return; }
            if (op == "py_parse")
            {
                if (!r) { viol({"py", "accept", "outcome"}, "parse() raised " + type + " for " + cut(text) + ": " + e + o.what); return; }
                Handle &h = put_py(id, r, m.term, 't');
                h.m = m;
                defaults(h.m);
                h.sm = expect_stamp(m);
                pTask *t = py_task(h);
                if (!t || !*t) { viol({"py"}, "parse() returned no task"); return; }
                Handle tmp;
                tmp.kind = 't';
                sut([&] { tmp.task = *t; });
                tmp.t = h.t; tmp.m = h.m; tmp.sm = h.sm;
                check_task(tmp, "python line " + cut(text));
                same(tmp.task->sentence->term.get(), h.t, {"py"}, "python line " + cut(text));
                check_stamp(tmp.task->sentence->stamp, *h.sm, "python line " + cut(text), true);
                sut([&] { tmp.task = pTask(); });
                check_repr(h);
                CNT->add("py_parsed");
                return;
            }
            if (!r && type != "RuntimeError") viol({"py"}, "parse() of " + cut(text) + " raised " + type + " instead of RuntimeError");
            if (op == "py_bad") { if (r) { viol({"py", "rejected"}, "parse() accepted " + cut(text)); } else CNT->add("py_rejected"); }
            else
            {
                auto ref = reference.find(text);
                std::string got = "R";
                if (r)
                {
                    pTask t;
                    try { sut([&] { t = py::handle(r).cast<pTask &>(); }); } catch (...) {}
                    if (t && t->sentence && t->sentence->term) got = "A " + extract(*t->sentence->term)->key + PUNCT[(int)t->sentence->punct];
                    sut([&] { t = pTask(); });
                }
                if (ref != reference.end())
                {
                    bool ok = got == "R" ? ref->second == "R" : ref->second.compare(0, got.size(), got) == 0;
                    if (!ok) viol({"py", "outcome"}, "in a fresh process the line " + cut(text) + " gives " + cut(ref->second) + ", in Python it gives " + cut(got));
                }
                CNT->add("py_raw");
            }
            (void)good;
            if (r) { arena::Scope z; Py_DECREF(r); }
        }
        else if (op == "py_atom" || op == "py_anon")
        {
            PyObject *s = py_text(text);
            PyObject *r = op == "py_atom" ? py_call("Term", {s}, o) : py_call("Term", {}, o);
            Py_DECREF(s);
            if (!r) { std::string e = py_error(); if (o.oom) maybe.insert(text); else viol({"py"}, "Term() failed: " + e + o.what); return; }
            std::string n = op == "py_atom" ? text : "@" + std::to_string(id);
            if (op == "py_anon")
            {
                pTerm *t = nullptr;
                try { t = &py::handle(r).cast<pTerm &>(); } catch (...) {}
                if (t) anon[n] = t->get();
            }
            py_adopt(id, r, atom(n), 'e', "python atom");
        }
        else if (op == "py_names")
        {
            // names that differ behind a NUL, a blank, a line's end or in case are different names
            std::string n[3];
            for (int i = 0; i < 3; i++) n[i] = text + (i ? std::string(1, "\0 \n.A"[num(a, 0) % 5]) + std::to_string(i) : "");
            PyObject *r[3] = {nullptr, nullptr, nullptr};
            Term *p[3] = {nullptr, nullptr, nullptr};
            bool oom = false;
            for (int i = 0; i < 3; i++)
            {
                PyObject *s = py_text(n[i]);
                r[i] = py_call("Term", {s}, o);
                Py_DECREF(s);
                oom |= o.oom;
                if (!r[i]) { std::string e = py_error(); if (o.oom) maybe.insert(n[i]); else viol({"py"}, "Term() failed: " + e + o.what); continue; }
                try { p[i] = py::handle(r[i]).cast<pTerm &>().get(); } catch (...) {}
            }
            for (int i = 0; i < 3; i++)
            {
                if (!p[i]) continue;
                for (int j = 0; j < i; j++) if (p[j] == p[i]) viol({"identity", "py"}, "two names are one atom: " + cut(n[j]) + ", " + cut(n[i]));
                std::string got = render_term(*p[i], false, o);
                if (!oom && o.ok && got != n[i]) viol({"identity", "render"}, "the atom " + cut(n[i]) + " is shown as " + cut(got));
            }
            arena::Scope z;
            for (auto *x : r) Py_XDECREF(x);
            CNT->add("py_names");
        }
        else if (op == "py_attr")
        {
            if (a.size() < 2) return;
            const std::string &at = a[1];
            Handle *h = at == "sentence" || at == "term" ? P(0, "t") : P(0, "e");
            if (!h) return;
            PyObject *r = pycall([&] { return PyObject_GetAttrString(h->obj, at.c_str()); }, o);
            if (!r) { std::string e = py_error(); viol({"py"}, "attribute " + at + " of " + cut(h->t->key) + " raised " + e + o.what); return; }
            T t = h->t;
            int g = h->group;
            if (at == "sentence")
            {
                Handle &c = put_py(id, r, t, 's');
                c.m = h->m; c.sm = h->sm; c.group = g;
                check_repr(c);
            }
            else if (at == "term") { py_adopt(id, r, t, 'e', "the term of a python task"); H[id]->group = g; }
            else if (at == "copula")
            {
                if (t->k != STMT) { if (r != Py_None) viol({"py"}, "copula of " + cut(t->key) + " is not None"); }
                else
                {
                    PyObject *w = py_enum("Copula", COPNAME[t->c]);
                    if (!w) { py_error(); viol({"py"}, std::string("Copula.") + COPNAME[t->c] + " is missing"); }
                    else
                    {
                        if (PyObject_RichCompareBool(r, w, Py_EQ) != 1) { PyErr_Clear(); viol({"py"}, "copula of " + cut(t->key) + " is wrong"); }
                        Py_DECREF(w);
                    }
                }
                arena::Scope z;
                Py_DECREF(r);
            }
            else if (at == "terms")
            {
                if (t->k != STMT && t->k != CMPD) { if (r != Py_None) viol({"py"}, "terms of " + cut(t->key) + " is not None"); arena::Scope z; Py_DECREF(r); return; }
                if (r == Py_None) { viol({"py"}, "terms of " + cut(t->key) + " is None"); Py_DECREF(r); return; }
                Handle &c = put_py(id, r, t, 'i');
                c.rest = t->a;
                c.group = g;
            }
            else
            {
                if (t->k != STMT) { if (r != Py_None) viol({"py"}, at + " of " + cut(t->key) + " is not None"); arena::Scope z; Py_DECREF(r); return; }
                if (r == Py_None) { viol({"py"}, at + " of " + cut(t->key) + " is None"); Py_DECREF(r); return; }
                py_adopt(id, r, t->a[at == "subject" ? 0 : 1], 'e', "the " + at + " of a python statement");
                H[id]->group = g;
            }
            CNT->add("py_attr");
        }
        else if (op == "py_next")
        {
            Handle *h = P(0, "i");
            if (!h) return;
            PyObject *r = pycall([&] { return PyIter_Next(h->obj); }, o);
            if (!r)
            {
                if (PyErr_Occurred()) { std::string e = py_error(); viol({"py"}, "iterating raised " + e); return; }
                if (!h->rest.empty()) viol({"py"}, "an iterator over " + cut(h->t->key) + " ended " + std::to_string(h->rest.size()) + " components early");
                h->rest.clear();
                return;
            }
            pTerm *t = nullptr;
            try { t = &py::handle(r).cast<pTerm &>(); } catch (...) {}
            if (!t || !*t) viol({"py"}, "an iterator over terms yields something else");
            else
            {
                T m = extract(**t);
                bool ok = false;
                bool ordered = !(h->t->k == CMPD && con_commutative(h->t->c));
                for (size_t i = 0; i < h->rest.size() && !ok; i++)
                {
                    if (h->rest[i]->key == m->key) { h->rest.erase(h->rest.begin() + (long)i); ok = true; }
                    else if (ordered) break;
                }
                if (!ok) viol({"py"}, "an iterator over " + cut(h->t->key) + " yields " + cut(m->key));
            }
            arena::Scope z;
            Py_DECREF(r);
        }
        else if (op == "py_stmt")
        {
            int cop = (int)num(a, 0);
            Handle *x = P(1, "e"), *y = P(2, "e");
            if (!x || !y || cop < 0 || cop >= NCOP) return;
            PyObject *c = py_enum("Copula", COPNAME[cop]);
            if (!c) { py_error(); viol({"py"}, std::string("Copula.") + COPNAME[cop] + " is missing"); return; }
            T m = model::stmt(x->t, cop, y->t);
            PyObject *r = py_call("Statement", {x->obj, c, y->obj}, o);
            if (!r) { std::string e = py_error(); if (o.oom) { names_of(m, maybe); check_all(false); r = py_call("Statement", {x->obj, c, y->obj}, o); } if (!r) { viol({"py"}, "Statement() failed for " + cut(m->key) + ": " + e + o.what); Py_DECREF(c); return; } }
            Py_DECREF(c);
            py_adopt(id, r, m, 'e', "python statement");
            if (pTerm *t = py_term(*H[id])) as_parsed(**t, m);
        }
        else if (op == "py_cmpd")
        {
            int con = (int)num(a, 0);
            if (con < 0 || con >= NCON) return;
            std::vector<T> ms;
            std::vector<PyObject *> os;
            for (size_t i = 1; i < a.size(); i++) { Handle *h = P(i, "e"); if (!h) return; ms.push_back(h->t); os.push_back(h->obj); }
            PyObject *c = py_enum("Connector", CONNAME[con]);
            if (!c) { py_error(); viol({"py"}, std::string("Connector.") + CONNAME[con] + " is missing"); return; }
            PyObject *f = PyObject_GetAttrString(pymod, "Compound");
            PyObject *t = PyTuple_New((Py_ssize_t)os.size() + 1);
            PyTuple_SET_ITEM(t, 0, c);
            for (size_t i = 0; i < os.size(); i++) { Py_INCREF(os[i]); PyTuple_SET_ITEM(t, (Py_ssize_t)i + 1, os[i]); }
            PyObject *r = pycall([&] { return PyObject_CallObject(f, t); }, o);
            std::string type, e;
            if (!r) e = py_error(&type);
            if (!r && o.oom) { for (auto &x : ms) names_of(x, maybe); check_all(false); r = pycall([&] { return PyObject_CallObject(f, t); }, o); if (!r) e = py_error(&type); }
            Py_DECREF(t);
            Py_DECREF(f);
            if (ms.empty())
            {
                if (r || type != "ValueError") viol({"py"}, "Compound() without components " + (r ? std::string("succeeded") : "raised " + type));
                Py_XDECREF(r);
                return;
            }
            T m = make(con, ms);
            if (!r) { viol({"py"}, "Compound() failed for " + cut(m->key) + ": " + e + o.what); return; }
            py_adopt(id, r, m, 'e', "python compound");
            if (pTerm *q = py_term(*H[id])) as_parsed(**q, m);
        }
        else if (op == "py_num") // what, how many given, three numbers
        {
            bool T_ = num(a, 0) % 2 == 0;
            int given = (int)num(a, 1) % 4;
            bool kw = num(a, 1) >= 4;
            if (T_) given = std::max(given, 2);
            static const char *tn[] = {"f", "c", "k"}, *bn[] = {"p", "d", "q"};
            double dflt[3] = {0.9, 0.9, 0.5};
            PyObject *f = PyObject_GetAttrString(pymod, T_ ? "Truth" : "Budget"), *t = PyTuple_New(kw ? 0 : given), *d = PyDict_New();
            for (int i = 0; i < given; i++)
            {
                PyObject *x = PyFloat_FromDouble((double)num(a, 2 + (size_t)i) / 1000.0);
                if (kw) { PyDict_SetItemString(d, T_ ? tn[i] : bn[i], x); Py_DECREF(x); }
                else PyTuple_SET_ITEM(t, i, x);
            }
            PyObject *r = pycall([&] { return PyObject_Call(f, t, d); }, o);
            Py_XDECREF(f); Py_DECREF(t); Py_DECREF(d);
            if (!r) { std::string e = py_error(); viol({"py"}, std::string(T_ ? "Truth" : "Budget") + "() with " + std::to_string(given) + " numbers failed: " + e + o.what); return; }
            Handle &h = put_py(id, r, ival(0), T_ ? 'T' : 'B');
            if (T_) dflt[2] = 1.0;
            for (int i = 0; i < 3; i++) (T_ ? h.m.t : h.m.b)[i] = i < given ? (double)num(a, 2 + (size_t)i) / 1000.0 : dflt[i];
            check_py_number(h, "just made");
            if (T_)
            {
                double e = h.m.t[1] * (h.m.t[0] - 0.5) + 0.5, want = std::max(e, (1 - e) * 0.75);
                PyObject *b = PyObject_GetAttrString(pymod, "Budget");
                PyObject *q = pycall([&] { return PyObject_CallMethod(b, "quality_from_truth", "O", h.obj); }, o);
                Py_XDECREF(b);
                double x = q ? PyFloat_AsDouble(q) : 0;
                if (!q) { std::string z = py_error(); viol({"py"}, "quality_from_truth() failed: " + z + o.what); }
                else if (!near(x, want)) viol({"py"}, "the quality from truth " + fmt2(h.m.t[0], 3) + ";" + fmt2(h.m.t[1], 3) + " is " + fmt2(x, 5) + " instead of " + fmt2(want, 5));
                Py_XDECREF(q);
            }
        }
        else if (op == "py_set") // a number of it changes, and with it every sentence that holds it
        {
            Handle *h = P(0, "TB");
            if (!h) return;
            int i = (int)num(a, 1) % 3;
            double x = (double)num(a, 2) / 1000.0;
            static const char *tn[] = {"f", "c", "k"}, *bn[] = {"p", "d", "q"};
            PyObject *v = PyFloat_FromDouble(x);
            int rc = -1;
            o = sut([&] { rc = PyObject_SetAttrString(h->obj, h->pk == 'T' ? tn[i] : bn[i], v); });
            Py_DECREF(v);
            if (rc) { std::string e = py_error(); viol({"py"}, "setting a number failed: " + e + o.what); return; }
            (h->pk == 'T' ? h->m.t : h->m.b)[i] = x;
            check_py_number(*h, "just changed");
            for (auto &[k, s] : H)
                if (h->pk == 'T' && s->kind == 'p' && s->pk == 's' && s->truth_of == (int)num(a, 0)) { s->m.t[i] = x; if (s->t->size < 300) check_repr(*s); }
        }
        else if (op == "py_sent")
        {
            Handle *x = P(0, "e");
            if (!x) return;
            int pn = (int)num(a, 1) & 3;
            bool tr = num(a, 2) != 0;
            static const char *PN[] = {"Judgement", "Question", "Goal", "Quest"};
            PyObject *p = py_enum("Punctuation", PN[pn]);
            if (!p) { py_error(); viol({"py"}, std::string("Punctuation.") + PN[pn] + " is missing"); return; }
            PyObject *truth = Py_None;
            Handle *given = P(3, "T");
            double tv[2] = {0.25, 0.5};
            if (given) { truth = given->obj; tr = true; tv[0] = given->m.t[0]; tv[1] = given->m.t[1]; }
            Py_INCREF(truth);
            if (tr && !given)
            {
                Py_DECREF(truth);
                PyObject *f = PyFloat_FromDouble(0.25), *c = PyFloat_FromDouble(0.5);
                truth = py_call("Truth", {f, c}, o);
                Py_DECREF(f); Py_DECREF(c);
                if (!truth) { std::string e = py_error(); viol({"py"}, "Truth() failed: " + e); Py_DECREF(p); return; }
                PyObject *v = PyObject_GetAttrString(truth, "f");
                if (!v || !near(PyFloat_AsDouble(v), 0.25)) { PyErr_Clear(); viol({"py"}, "Truth.f is wrong"); }
                Py_XDECREF(v);
                v = PyObject_GetAttrString(truth, "c");
                if (!v || !near(PyFloat_AsDouble(v), 0.5)) { PyErr_Clear(); viol({"py"}, "Truth.c is wrong"); }
                Py_XDECREF(v);
            }
            T m = x->t;
            int g = x->group;
            PyObject *r = py_call("Sentence", {x->obj, p, truth, Py_None}, o);
            { arena::Scope z; Py_DECREF(p); Py_DECREF(truth); }
            if (!r) { std::string e = py_error(); viol({"py"}, "Sentence() failed: " + e + o.what); return; }
            Handle &h = put_py(id, r, m, 's');
            h.group = g;
            h.m.punct = PUNCT[pn];
            h.sentence_truth = tr;
            h.m.t[0] = tv[0]; h.m.t[1] = tv[1];
            if (given) h.truth_of = (int)num(a, 3);
            h.sm = std::make_shared<StampModel>();
            h.sm->created = (long)clock_; h.sm->occ = (long)clock_;
            pSentence *s = py_sentence(h);
            if (!s || !*s) { viol({"py"}, "Sentence() gave no sentence"); return; }
            check_stamp((*s)->stamp, *h.sm, "a new python sentence", true);
            check_repr(h);
        }
        else if (op == "py_repr") { Handle *h = P(0, "tseTB"); if (h && (h->pk == 'T' || h->pk == 'B')) check_py_number(*h, "later"); else if (h && h->t->size < 600) check_repr(*h); }
        else if (op == "py_cycle")
        {
            Handle *h = P(0, "tse");
            if (!h) { release((int)num(a, 0)); return; }
            T t = h->t;
            PyObject *l = PyList_New(0);
            PyList_Append(l, h->obj);
            PyList_Append(l, l);
            cycle_terms.push_back(t);
            release((int)num(a, 0));
            Py_DECREF(l);
            CNT->add("fault_gc_delayed");
        }
        else if (op == "py_gc")
        {
            collect_garbage();
            cycle_terms.clear();
        }
        else if (op == "py_misuse")
        {
            PyObject *five = PyLong_FromLong(5), *none = Py_None, *r = nullptr;
            switch (num(a, 0))
            {
            case 0: r = py_call("parse", {five}, o); break;
            case 1: r = py_call("parse", {}, o); break;
            case 2: r = py_call("Statement", {five, five, five}, o); break;
            case 3: r = py_call("Term", {five}, o); break;
            case 4: { PyObject *s = PyUnicode_FromString("x"); r = py_call("Compound", {s}, o); Py_DECREF(s); break; }
            case 5: r = py_call("Truth", {none, none}, o); break;
            case 8: { PyObject *b = PyObject_GetAttrString(pymod, "Budget"); o = sut([&] { r = PyObject_CallMethod(b, "quality_from_truth", "O", none); }); Py_DECREF(b); break; }
            case 9: case 10: case 11:
            {
                long k = num(a, 0) - 9;
                PyObject *n = PyLong_FromLong(num(a, 1)), *c = py_call(k == 0 ? "Connector" : k == 1 ? "Copula" : "Punctuation", {n}, o), *s = py_text("misused"), *x = py_call("Term", {s}, o);
                if (c && x) r = k == 0 ? py_call("Compound", {c, x}, o) : k == 1 ? py_call("Statement", {x, c, x}, o) : py_call("Sentence", {x, c, none, none}, o);
                arena::Scope z;
                Py_DECREF(n); Py_DECREF(s); Py_XDECREF(c); Py_XDECREF(x);
                break;
            }
            case 6: { PyObject *c = py_enum("Connector", "Product"); if (c) { r = py_call("Compound", {c, five}, o); Py_DECREF(c); } break; }
            default: { PyObject *c = py_enum("Copula", "Inheritance"); if (c) { r = py_call("Statement", {none, c, none}, o); Py_DECREF(c); } break; }
            }
            Py_DECREF(five);
            std::string type;
            if (!r) py_error(&type);
            else { viol({"py"}, "a call with arguments of the wrong type succeeded"); Py_DECREF(r); }
            CNT->add("py_misuse");
        }
        else if (op == "py_take")
        {
            Handle *h = P(0, "e");
            if (!h) return;
            pTerm *t = py_term(*h);
            if (!t) { viol({"py"}, "a python term is no term"); return; }
            T m = h->t;
            int g = h->group;
            Handle &c = put(id, 'e', m);
            sut([&] { c.term = *t; });
            c.group = g;
        }
        else if (op == "py_give")
        {
            Handle *h = get((int)num(a, 0), "e");
            if (!h) return;
            PyObject *r = pycall([&] { return py::cast(h->term).release().ptr(); }, o);
            if (!r) { std::string e = py_error(); viol({"py"}, "a term cannot be given to Python: " + e + o.what); return; }
            T m = h->t;
            int g = h->group;
            py_adopt(id, r, m, 'e', "a term given to Python");
            H[id]->group = g;
            check_repr(*H[id]);
        }
        else { fprintf(stderr, "SIM: unknown step %s\n", op.c_str()); _exit(95); }
    }

    Strs split(const std::string &s)
    {
        Strs v;
        std::stringstream ss(s);
        std::string x;
        while (ss >> x) v.push_back(x);
        return v;
    }
    struct Line
    {
        int id = 0, session = 0;
        Strs args;
        std::string text, shown;
    };
    Line read_line(const std::string &l)
    {
        Line r;
        r.shown = l;
        std::string head = l;
        size_t p = l.find(" | ");
        if (p != std::string::npos) { head = l.substr(0, p); r.text = unescape(l.substr(p + 3)); }
        else if (l.size() >= 2 && l.substr(l.size() - 2) == " |") head = l.substr(0, l.size() - 2);
        Strs v = split(head);
        if (v.size() >= 3 && v[1][0] == 's') { r.id = atoi(v[0].c_str()); r.session = atoi(v[1].c_str() + 1); r.args.assign(v.begin() + 2, v.end()); }
        return r;
    }
    void finish_pass()
    {
        STEP = "end of the run";
        pending_oom = -1;
        std::vector<int> ids;
        for (auto &[i, h] : H) ids.push_back(i);
        // odd ones first, then the rest backwards: yet another order
        std::stable_partition(ids.begin(), ids.end(), [](int i) { return i % 2; });
        std::reverse(ids.begin() + (long)(ids.size() / 2), ids.end());
        for (int i : ids) release(i);
        collect_garbage();
        cycle_terms.clear();
        purge_anon();
        check_all(false);
        for (int i = 1; i < 4; i++)
            if (parsers[i]) { NarseseParser *p = parsers[i]; parsers[i] = nullptr; sut([&] { delete p; }); }
        if (interp2) { Interpreter *p = interp2; interp2 = nullptr; sut([&] { delete p; }); }
        check_all(false);
    }
}

char *step_board;

void run_plan(const std::vector<std::string> &plan, const std::set<std::string> &tags, Counters &counters, uint64_t &digest, std::vector<uint64_t> &states)
{
    TAGS = tags;
    CNT = &counters;
    ArenaConfig c;
    int passes = 1;
    std::vector<Line> lines;
    for (auto &l : plan)
    {
        if (l.compare(0, 7, "config ") == 0)
        {
            for (auto &kv : split(l.substr(7)))
            {
                size_t e = kv.find('=');
                std::string k = kv.substr(0, e), v = kv.substr(e + 1);
                if (k == "reuse") c.reuse = atoi(v.c_str());
                else if (k == "dir") c.dir = atoi(v.c_str());
                else if (k == "stride") c.stride = atoi(v.c_str());
                else if (k == "junk") c.junk = atoi(v.c_str());
                else if (k == "low") c.low = atoi(v.c_str());
                else if (k == "seed") c.seed = strtoull(v.c_str(), nullptr, 10);
                else if (k == "passes") passes = atoi(v.c_str());
            }
        }
        else if (!l.empty() && l[0] != '#') { Line x = read_line(l); if (!x.args.empty()) lines.push_back(x); }
    }
    reset_world();
    // What each unpredictable line means in a fresh process, with another heap.
    reference.clear();
    for (auto &x : lines)
        if (x.args[0] == "raw" || x.args[0] == "py_raw")
        {
            if (reference.count(x.text)) continue;
            if (step_board) snprintf(step_board, 4000, "%s", x.shown.c_str());
            int status = 0;
            std::string r = forked([&]
                {
                    ArenaConfig o = c;
                    o.junk = c.junk == 2 ? 1 : 2; o.dir = (c.dir + 1) % 3; o.stride = 0; o.reuse = (c.reuse + 1) % 4;
                    arena::init(o, sizeof(Term));
                    NarseseParser *p = nullptr;
                    sut([&] { p = new NarseseParser(); });
                    return outcome(*p, x.text, nullptr);
                }, status);
            if (!WIFEXITED(status) || WEXITSTATUS(status)) die_like(status, "a single line in a fresh process: " + x.shown);
            reference[x.text] = r;
        }
    arena::init(c, sizeof(Term));
    digest = 1469598103934665603ull;
    uint64_t blocks[8] = {0}, bytes[8] = {0};
    uint64_t last_trace = 0;
    for (int pass = 0; pass < passes && pass < 8; pass++)
    {
        reset_world();
        maybe.clear();
        groups = 0;
        pending_oom = -1;
        forced_slot = 0;
        int n = 0;
        int prev = -1;
        for (auto &x : lines)
        {
            STEP = x.shown;
            if (step_board) snprintf(step_board, 4000, "%s", x.shown.c_str());
            if (x.session != prev) { counters.add("context_switches"); prev = x.session; }
            step(x.id, x.args, x.text);
            purge_anon();
            if (x.args[0] != "oom") check_all(++n % 4 == 0 || x.args[0] == "clone" || x.args[0] == "rename");
            counters.add("step_" + x.args[0]);
            if (pass == 0)
            {
                uint64_t f = state_fp();
                states.push_back(f);
                digest = fnv(digest, std::to_string(f) + " " + std::to_string(arena::stats().allocs) + " " + std::to_string(arena::stats().live_bytes));
                last_trace = f;
            }
        }
        check_all(true);
        finish_pass();
        blocks[pass] = arena::stats().live_blocks;
        bytes[pass] = arena::stats().live_bytes;
        counters.add("passes");
        // the next pass uses its own ids for private atoms, so nothing is left to carry over
        if (pass == 2)
        {
            // A parser keeps its buffers, and their sizes follow the texts it was given last, which follow the order of addresses: what
            // grew is a leak only if it goes on growing.
            bool grown = blocks[2] > blocks[1] || bytes[2] > bytes[1];
            if (passes == 3 && grown) passes = 8;
        }
    }
    (void)last_trace;
    if (passes == 8)
    {
        auto grows = [](const uint64_t *v) { int up = 0, down = 0; for (int i = 2; i < 8; i++) { up += v[i] > v[i - 1]; down += v[i] < v[i - 1]; } return up >= 4 && !down; };
        counters.add("repeated_further");
        if (grows(blocks) || grows(bytes))
        {
            STEP = "repetition";
            viol({"leak"}, "each repetition of the workload leaves " + std::to_string((long)(blocks[7] - blocks[6])) + " blocks and " + std::to_string((long)(bytes[7] - bytes[6])) + " bytes behind");
        }
    }
    auto &s = arena::stats();
    digest = fnv(digest, std::to_string(s.allocs) + " " + std::to_string(s.frees) + " " + std::to_string(s.live_bytes));
    counters.add("allocs", s.allocs);
    counters.add("fault_address_reuse", s.reused);
    counters.add("fault_address_aliased_low_bits", s.strided);
    counters.add("fault_address_forced", s.forced);
    if (c.junk) counters.add("fault_dirty_memory", 1);
    counters.add("context", 1);
}
