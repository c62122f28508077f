#pragma once
#include <vector>
// Small linear programs on which the simplex procedure does not terminate if pivots are selected by rules
// other than taking the smallest indices both for the entering and the leaving variable. Each record gives
// the number m of rows and n of variables, whether the last row is an objective, m times n coefficients, the kind of bound
// (0 none, 1 lower, 2 upper) and the bound, and n times the kind of bounds (3 both) with lower and upper bound.
inline std::vector<std::vector<int>> const &cycling() {
    static std::vector<std::vector<int>> const data = {
        {3, 4, 0, 1, 2, 2, 1, 1, 1, 2, -2, -1, 2, 1, 1, 1, -2, 2, 2, 2, 0, 2, 0, -1, 1, 0, 0, 3, 0, 1, 1, 0, 0}, // rule 1.-1
        {3, 4, 0, 2, 2, -2, 1, 1, 0, 2, 1, 2, -2, 2, 0, -1, 2, 2, 2, 2, 0, 1, 0, 0, 2, 0, 0, 3, 1, 2, 1, 0, 0}, // rule 1.-1
        {3, 4, 0, -2, 2, 2, 2, 2, -1, -1, 2, -2, -2, 2, 0, 0, 2, 2, -1, 2, 0, 1, 0, 0, 1, 1, 0, 2, 0, 0, 1, 0, 0}, // rule 1.-1
        {3, 4, 0, 2, -2, 2, 1, 1, 0, -1, 1, 2, 1, 2, -1, -2, -2, -1, 2, 1, 0, 1, 0, 0, 3, 1, 1, 2, 0, 0, 1, 0, 0}, // rule 1.-1
        {3, 5, 0, 0, -1, 2, -1, 2, 2, -1, -1, 1, 0, -2, -1, 2, 0, -1, 0, 1, 2, -2, 2, 0, 2, 0, -1, 0, 0, 0, 2, 0, 0, 3, 0, 1, 1, 0, 0}, // rule 1.-1
        {3, 5, 0, -2, -2, 1, 2, -2, 2, 0, 1, 1, 2, -2, -2, 1, 1, 1, 0, -2, -2, -1, 1, 1, 0, 0, 0, 1, 0, 0, 2, 0, 0, 1, 1, 0, 2, 0, 0}, // rule 1.-1
        {3, 5, 0, 1, 2, 2, 1, 1, 1, 0, 2, -1, -2, 0, 1, 2, 1, 2, -2, 1, -2, 0, 1, 0, 1, 0, 0, 1, 0, 0, 3, -1, -1, 1, 0, 0, 3, 0, 1}, // rule 1.-1
        {3, 5, 0, -1, 1, -2, -1, -1, 1, 0, 1, 2, 1, -2, -2, 2, 0, -1, 1, 2, -2, 1, 1, 0, 3, 1, 1, 2, 0, 0, 3, -1, 0, 2, 0, 0, 1, 0, 0}, // rule 1.-1
        {4, 4, 0, -2, 2, 1, -2, 2, 0, -2, -2, 2, -1, 1, 1, 1, 1, -2, 2, 1, 0, 0, 1, 1, 2, 2, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0, 3, 0, 1}, // rule 2.-1
        {4, 4, 0, -2, -2, 0, 2, 1, 0, -1, 2, 1, 1, 1, 0, 0, 1, 0, 2, 2, -1, 0, -1, 2, -1, 2, 0, 1, 0, 0, 0, 0, 0, 3, 0, 1, 1, -1, 0}, // rule 2.-1
        {4, 4, 0, -1, -1, 2, 2, 1, 0, 1, -2, -2, -1, 1, 0, -2, -1, 2, 0, 2, 0, 1, -1, 2, 2, 2, 0, 1, 0, 0, 2, 0, 1, 3, 1, 2, 2, 0, 0}, // rule 2.-1
        {4, 4, 0, 1, 2, -2, -1, 2, 0, 2, -1, -1, 1, 1, 0, -1, 1, -2, 1, 2, -1, 2, 0, 1, 0, 2, 0, 1, -1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}, // rule 2.-1
        {3, 5, 0, -1, -2, 2, 2, -2, 2, 1, 0, 2, 1, 2, 2, 1, 0, 2, 1, 1, -1, 2, 2, 0, 2, 0, 0, 2, 0, 0, 1, 1, 0, 1, -1, 0, 2, 0, 0}, // rule 3.-1
        {3, 5, 0, 2, -2, 0, 1, 2, 1, -1, 1, 1, -1, 2, 2, 1, 1, 1, -1, -2, 2, 1, 2, 0, 0, 0, 0, 1, 0, 0, 2, 0, 0, 1, 0, 0, 2, 0, -1}, // rule 3.-1
        {3, 5, 0, -1, 2, -1, 2, 1, 1, 0, 2, -2, -2, -1, 0, 1, 1, 2, -1, 1, 1, -2, 1, 0, 1, 0, 0, 2, 0, 0, 1, 0, 0, 2, 0, 0, 3, 0, 1}, // rule 3.-1
        {3, 5, 0, 0, 2, -1, -1, -2, 1, 0, -2, 0, 1, -2, 1, 2, 0, 2, 0, 2, -1, 1, 1, 0, 3, 0, 1, 3, 0, 0, 2, 0, 0, 1, -1, 0, 1, 1, 0}, // rule 3.-1
        {4, 4, 0, 0, 2, 1, 1, 2, 0, 1, -1, -2, 0, 1, 0, -1, -2, -1, -2, 1, 0, -2, -1, 1, -2, 1, 1, 2, 0, 0, 1, 0, 0, 1, 0, 0, 3, 0, 1}, // rule 3.-1
        {4, 4, 0, 1, -1, -2, -2, 1, 0, -2, 0, 2, -1, 1, 0, -1, -2, 2, -2, 2, 0, 0, 1, 0, -1, 2, 0, 1, 1, 0, 1, 0, 0, 3, 0, 1, 1, -1, 0}, // rule 3.-1
        {4, 4, 0, 1, 1, 2, 2, 2, -1, 2, -1, -2, -1, 2, 0, 2, -2, 1, 2, 1, 0, 2, 2, 2, 0, 1, 0, 2, 0, 1, 1, -1, 0, 2, 0, -1, 1, 0, 0}, // rule 3.-1
        {4, 4, 0, 1, -1, 2, -2, 2, 0, 1, -2, 1, 1, 1, 0, -1, 1, 1, 2, 2, 0, 1, 1, -2, 0, 2, 0, 1, 0, 0, 1, 1, 0, 1, 0, 0, 1, 0, 0}, // rule 3.-1
        {4, 4, 0, -1, 2, -1, -1, 1, 0, -1, 2, 0, -2, 2, 0, -2, 1, 0, 2, 1, 0, 2, 1, -2, 1, 2, 0, 1, 1, 0, 2, 0, 0, 1, -1, 0, 1, 1, 0}, // rule 10.-1
        {4, 4, 0, -2, 0, 1, 1, 1, 1, 0, -1, -2, -2, 2, 1, -2, 1, 0, -1, 1, -1, -1, 0, -2, 1, 2, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 2, 0, -1}, // rule 10.-1
        {4, 4, 0, -1, -2, 0, 2, 1, 0, -2, -1, 2, -1, 2, 0, 2, -2, -2, -2, 2, -1, -1, 2, 2, -1, 1, 1, 3, 1, 2, 1, 1, 0, 1, 0, 0, 1, 0, 0}, // rule 10.-1
        {4, 4, 0, 0, -1, -2, -2, 2, 0, -1, -1, -2, 1, 1, 1, 1, 0, -2, 2, 1, 0, -2, 1, 1, -2, 2, 0, 1, 0, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0}, // rule 10.-1
        {4, 4, 0, 1, -2, -2, -1, 2, 0, -2, 2, 1, 0, 2, -1, 0, -2, 2, 1, 2, 0, -1, -1, -2, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 3, 0, 1}, // rule 22.-1
        {4, 4, 0, 0, 0, 1, 2, 1, 0, 2, 2, 1, -1, 2, -1, 1, -1, -1, 2, 2, -1, -2, 1, 2, 2, 2, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 2, 0, 0}, // rule 22.-1
        {4, 4, 0, -2, -2, 1, -1, 2, 1, 2, 1, 0, 2, 1, 0, 2, -1, -1, 0, 1, 0, -1, -1, -1, 2, 1, 1, 0, 0, 0, 1, 0, 0, 3, 0, 1, 3, 0, 1}, // rule 22.-1
        {4, 4, 0, 1, -1, 2, 2, 1, 0, 1, -2, -2, 1, 2, 0, 2, 0, 1, -2, 2, 0, -1, 1, -2, 2, 2, 0, 3, 1, 1, 1, 0, 0, 2, 0, 0, 0, 0, 0}, // rule 23.-1
        {4, 4, 0, 1, -1, -1, 1, 2, 0, 0, 2, 2, -1, 2, 0, -2, 2, 1, 2, 1, 0, -2, 2, 0, 1, 2, 0, 3, 0, 1, 1, 1, 0, 2, 0, 0, 0, 0, 0}, // rule 23.-1
        {4, 4, 0, 0, -2, -2, -2, 1, 0, 0, 1, -2, 1, 1, -1, 2, 2, -1, 1, 2, 0, -1, 1, 2, 2, 1, 0, 3, 1, 2, 2, 0, 0, 1, 0, 0, 2, 0, 0}, // rule 31.-1
        {4, 4, 0, -1, -1, 2, 0, 2, 0, 0, -2, -2, -1, 2, -1, -1, -2, 2, 1, 1, 0, -1, -1, 2, 2, 2, -1, 0, 0, 0, 1, 0, 0, 3, 0, 1, 2, 0, 1}, // rule 31.-1
        {4, 4, 0, -2, 1, -1, 2, 1, 0, 1, -2, 2, -2, 1, 0, 1, -2, 1, 2, 2, 1, 2, -2, 0, 1, 1, 0, 1, 0, 0, 3, 1, 2, 1, 0, 0, 0, 0, 0}, // rule 31.-1
        {4, 4, 0, 1, 0, 2, 0, 2, 0, 2, 2, 1, 0, 1, 0, -2, 1, 1, 2, 2, 0, -1, 0, -2, 2, 1, 1, 2, 0, 0, 1, -1, 0, 1, 0, 0, 1, 0, 0}, // rule 32.-1
        {4, 4, 0, -1, 0, 2, 1, 1, 0, -2, 1, -1, 2, 2, 0, 1, 2, 2, 1, 2, -1, -1, 2, -1, -1, 2, 0, 0, 0, 0, 3, 0, 1, 2, 0, 0, 3, 1, 2}, // rule 32.-1
        {4, 4, 0, 0, 2, -2, 1, 2, 0, -1, -2, 1, 1, 2, 0, -1, 1, 2, 2, 1, 1, -2, -2, -1, 1, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 32.-1
        {4, 4, 0, -1, 2, -2, 2, 1, 0, 1, 1, -1, -1, 2, 0, 2, 2, 1, 2, 1, 0, -2, 1, 1, 2, 1, -1, 1, 1, 0, 2, 0, -1, 3, 0, 1, 3, 0, 1}, // rule 32.-1
        {4, 4, 0, -2, 2, -1, -1, 2, 0, 1, 0, 2, 1, 2, 0, -1, -2, 1, -2, 1, 0, -2, -1, -2, 1, 1, 0, 2, 0, 0, 3, 0, 1, 2, 0, 1, 1, 1, 0}, // rule 33.-1
        {4, 4, 0, 0, -1, -1, 2, 1, 1, 0, -2, -1, -1, 1, 0, -2, -2, 0, 2, 2, 0, 1, 0, -2, -2, 1, -1, 1, 0, 0, 1, 0, 0, 3, 0, 1, 1, -1, 0}, // rule 33.-1
        {4, 4, 0, -1, 1, -1, 2, 2, 0, 2, 0, 2, 1, 1, 0, 0, 1, 1, 1, 2, 0, -1, 2, -2, -1, 2, 0, 3, 0, 1, 1, 0, 0, 2, 0, -1, 0, 0, 0}, // rule 33.-1
        {4, 4, 1, -1, -2, 1, 2, 1, 0, -1, 1, -1, 2, 1, 0, 2, -1, -1, 0, 1, 0, 0, 2, 2, -1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.10
        {4, 4, 1, -1, 2, -2, -2, 1, 0, -2, 0, 2, 1, 1, 0, 0, 0, 1, -2, 2, 0, 1, 0, 1, -1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 2, 0, 0}, // rule 0.10
        {4, 4, 1, -2, 2, -2, 1, 1, 0, 0, -2, -1, 2, 1, 0, 2, 0, -1, -2, 1, 0, 1, 1, 2, 2, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0}, // rule 0.10
        {4, 4, 1, 1, 2, -2, -1, 2, 0, -1, -2, 1, -2, 2, 0, 2, 1, 2, 0, 2, 0, -1, 1, 1, -1, 0, 0, 1, 0, 0, 3, 0, 1, 1, 0, 0, 2, 0, 0}, // rule 0.10
        {4, 5, 1, -2, 2, 2, 1, 0, 2, 0, -1, -1, -2, 1, -2, 2, 0, -2, 0, -2, -1, 0, 1, 0, -1, 2, 2, 2, -2, 0, 0, 3, 0, 1, 1, 0, 0, 3, 0, 1, 1, 0, 0, 1, 0, 0}, // rule 0.10
        {4, 5, 1, 2, 1, 1, 1, 1, 1, 0, 1, 0, -1, -2, 2, 2, 0, -1, 2, 2, 1, -1, 1, 0, 1, 2, -2, -2, 0, 0, 0, 3, 0, 1, 2, 0, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.10
        {4, 5, 1, -2, -2, -2, 1, 2, 2, 0, -2, 0, 1, 2, -1, 2, 0, 2, -1, -2, 2, -1, 1, 0, -2, 1, 2, 2, 2, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 3, 0, 1}, // rule 0.10
        {4, 5, 1, -2, 1, 1, 2, -2, 2, 0, -2, 0, 0, 1, 1, 2, 0, -1, 2, -1, -1, -2, 2, 0, 0, 1, 0, 2, -1, 0, 0, 1, 0, 0, 1, 0, 0, 3, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.10
        {4, 5, 1, -1, 1, -1, -2, -1, 1, 0, 2, 0, 0, -2, 2, 1, 0, 1, 2, 2, 1, -2, 2, 0, 2, -2, 0, 1, 2, 0, 0, 2, 0, 0, 1, 0, 0, 3, 0, 0, 0, 0, 0, 1, 0, 0}, // rule 0.23
        {4, 5, 1, 0, -2, 1, 1, -2, 2, 0, 1, -1, 1, 1, 0, 2, 0, -1, 2, 1, -1, 2, 2, 0, -2, -2, 1, 0, -2, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 2, 0, 0, 2, 0, 0}, // rule 0.23
        {4, 5, 1, 0, 2, 0, 1, 0, 1, 0, -2, -1, 1, 1, 0, 1, 0, 2, 1, 2, 1, 0, 1, 0, -1, -1, -1, -2, -1, 0, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0, 1, -1, 0, 1, 0, 0}, // rule 0.23
        {4, 5, 1, -1, 1, 0, -1, 0, 2, 0, -2, 2, 0, -1, -1, 2, 0, 0, 2, 0, 1, -2, 2, 0, 2, 1, 0, -1, 2, 0, 0, 2, 0, 0, 2, 0, 0, 1, -1, 0, 0, 0, 0, 1, 0, 0}, // rule 0.23
        {5, 5, 1, 2, -2, 2, 1, 2, 2, 0, -2, 1, 1, 2, -2, 1, 0, 1, -1, 2, -2, -1, 2, 0, 0, -1, -2, 1, 1, 1, 0, 0, 0, 1, -2, 2, 0, 0, 2, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 2, 0, 0}, // rule 0.2
        {5, 5, 1, 1, 2, -2, 1, 2, 1, 0, 2, -2, -1, -2, 2, 1, 0, -1, -1, -2, 1, 0, 2, 0, 2, -1, 0, 2, 0, 2, 0, -2, 1, -2, 2, 1, 0, 0, 1, 0, 0, 1, 0, 0, 3, 0, 1, 1, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 5, 1, -1, 0, 2, -2, 1, 1, -1, 1, -2, 0, -2, 0, 2, 0, 1, -1, -2, -2, 0, 2, 0, -2, -2, -2, -1, 2, 2, -1, -2, 2, 2, -1, 0, 0, 0, 3, 0, 1, 3, 0, 1, 2, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 5, 1, -2, 0, 2, 1, 1, 1, 0, 0, 2, -2, 1, -2, 2, 0, 2, 0, 0, 1, 2, 1, 0, -2, -2, 2, -2, 2, 1, 0, 0, 1, -2, 2, -1, 0, 0, 3, 0, 1, 1, 0, 0, 3, 0, 1, 0, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 5, 1, 2, -1, -2, -1, 1, 2, 0, -2, -2, -2, 2, 1, 2, 0, -2, -2, 1, 1, 2, 2, 0, -2, 0, -1, 0, -2, 2, 0, 1, -1, -2, -2, -2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 2, 0, 0}, // rule 0.2
        {5, 5, 1, 0, 1, 0, 2, 2, 1, 0, -2, 1, 1, 0, -2, 1, 0, -2, 1, -2, -2, 1, 2, 0, 2, 2, -2, -1, 1, 2, 0, -1, 1, -1, -1, -2, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0}, // rule 0.2
        {5, 5, 1, 2, 1, 2, 2, -2, 1, 0, 2, -1, 0, 0, -2, 1, 0, 1, 2, 2, 1, 1, 2, 0, 1, 2, 1, -1, -2, 1, 0, 0, 2, 1, 2, -2, 0, 0, 1, 0, 0, 2, 0, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 5, 1, -2, 2, -1, 1, -2, 1, 0, 0, -1, 1, 0, -1, 2, 0, 0, -2, 0, -2, 1, 2, 0, 0, 0, 2, 1, -1, 2, 0, -1, -1, 1, 2, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 6, 1, 0, 0, 2, -1, 2, 1, 1, 0, -1, -1, -1, 2, 0, -2, 2, 0, -1, 0, 2, -2, 2, -2, 2, 0, 0, 2, 1, 2, 1, 2, 2, 0, -2, 2, 2, -1, -2, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 6, 1, -1, 0, 2, -1, -2, 2, 2, 0, 2, -1, 0, -2, 1, 1, 1, 0, -2, 0, 0, 1, 1, -2, 1, 0, 0, 2, 2, 2, 2, -2, 2, 0, 0, 2, 1, 1, 2, -1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0}, // rule 0.2
        {5, 6, 1, -1, 0, 1, 0, 0, -2, 2, 0, 1, -2, -2, -1, 2, 0, 2, 0, -2, 0, 0, -2, 2, -2, 1, 0, -1, 1, -2, 2, 0, 2, 1, 0, 0, 0, 1, 1, 1, 1, 0, 0, 1, -1, 0, 1, 0, 0, 3, 0, 1, 3, 0, 1, 3, 0, 1, 2, 0, 1}, // rule 0.2
        {5, 6, 1, 1, -2, 2, -1, -1, -2, 2, 0, -1, 0, 1, 2, -1, 2, 1, 0, -1, 1, 2, -2, 0, 0, 2, 0, -1, 2, 0, 0, -1, 2, 2, 0, -2, 0, 0, -2, 1, 2, 0, 0, 1, 0, 0, 3, 0, 1, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0}, // rule 0.2
    };
    return data;
}
