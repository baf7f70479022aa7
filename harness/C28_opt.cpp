// Property C28: the same, handing the work to the platform's algorithms where offered.
// FLAGS: -DFEATURE_ESTD_ALGORITHM_OPT=1
#include "C28_algorithms.cpp"
