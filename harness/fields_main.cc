#include "fields.h"
static void run_case(const vf::Case & c) { case_table().at(vf::num(vf::words(c.ops[0])[1]))(); }
int main() { return vf::run(run_case, 4, 120); }
