// Interface between a harness and the two runtimes it is linked with:
//  - symrt.cpp   symbolic run: values are terms, branches are decided by the solver driver
//  - replayrt.cpp native run: values are read from a candidate input vector
#ifndef VERIF_SYMRT_H
#define VERIF_SYMRT_H
extern "C" {
double symrt_var(const char *name);                       // an unconstrained real
double symrt_given(double x);                            // a given number, handled as an exact term
void symrt_assume(int cond);                              // cond was already branched on
int symrt_branch(const char *name);                       // an unconstrained boolean
void symrt_check(const char *label, int cond);            // obligation: cond holds
void symrt_check_eq(const char *label, double a, double b);   // obligation: a == b
void symrt_assume_rel(int pred, double a, double b);      // assume without branching: 0 <, 1 <=, 2 ==, 3 !=
void symrt_check_rel(const char *label, int pred, double a, double b); // obligation without branching
int symrt_symbolic(void);                                 // 1 in the symbolic run
void symrt_observe(const char *label, double x);          // value compared in the encoding self-check
void symrt_reach(const char *label);                      // reachability witness
void symrt_cut(void);                                     // end this path (outside the stated bounds)
int symrt_same(double a, double b);                       // identical bits (the same symbolic term or value)
}
void harness(void);
#endif
