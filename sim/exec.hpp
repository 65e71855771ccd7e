// The executor: repeats a plan step by step against the real code, on the simulated heap, and judges every step.
#pragma once
#include "arena.hpp"
#include "gen.hpp"
#include <stdexcept>
#include <string>
#include <vector>

struct Violation
{
    std::set<std::string> tags;
    std::string text;
    std::string step;
};
struct Found : std::exception
{
    Violation v;
    Found(Violation v) : v(std::move(v)) {}
    const char *what() const noexcept override { return v.text.c_str(); }
};

struct Counters
{
    std::map<std::string, uint64_t> n;
    void add(const std::string &k, uint64_t d = 1) { n[k] += d; }
};

// Runs a plan to its end.  Throws Found at the first violation that carries one of the tags asked for.
void run_plan(const std::vector<std::string> &plan, const std::set<std::string> &tags, Counters &counters, uint64_t &digest, std::vector<uint64_t> &states);
void python_up();
