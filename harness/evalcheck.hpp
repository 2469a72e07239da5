// Oracle judgements on one evaluation result, and case generation for the evaluation modules.
#pragma once
#include "mon.hpp"
namespace mon {
// generation profile of a case
struct Prof {
    bool linear = true;
    SemK sem = SPACE;
    int cover = 1;          // 1: data cover the horizon, 2: they do not, 0: either
    int max_depth = 4;
    bool until = true;
    bool nested = true;     // nested temporal operators
    bool off_grid = false;  // sample times off the grid of the evaluation windows
    bool decimals = true;   // sometimes use decimal (inexact) times and values
    bool scales = false;    // sometimes other orders of magnitude of time and value
    bool extreme = false;   // and very far ones
    int dec_pct = 15;
    bool long_traces = true;
    int huge = 0;           // one case in so many has thousands of samples
};
Case scaled(const Case &c, double time, double value);
bool enlarge(Rng &r, Case &c);
Case gen_case(Rng &r, const Prof &p);
// judgement of an evaluation: "" if it agrees with the reference
std::string judge_covered(const Case &c, const R3 &o);
std::string judge_partial(const Case &c, const R3 &o);
std::string judge_time(const Case &c, const R3 &o, bool &decidable);
bool eligible(const Case &c);
bool exact_times(const Case &c);
// evaluate (driver or monitor), judge; on violation shrink and report
typedef std::function<std::string(const Case &)> Judge;
void report(Run &R, const std::string &kind, const Case &c, const Judge &j);
}
