#include "functions.h"
std::jmp_buf untold;
extern "C" void __assert_fail(const char *, const char *, unsigned, const char *) noexcept
{
    std::longjmp(untold, 1);
}
static void run_case(const vf::Case & c) { case_table().at(vf::num(vf::words(c.ops[0])[1]))(); }
int main() { return vf::run(run_case, 4, 120); }
