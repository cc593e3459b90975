#include "fem_jobs.h"
namespace fj {
const StFns* st_0();
const StFns* st_1();
const StFns* st_2();
const StFns* st_3();
const StFns* st_4();
const StFns* st_5();
const StFns* st_6();
const StFns* st_7();
const StFns* st_8();
const StFns* st_9();
const StFns* st_10();
const StFns* st_11();
const StFns* st_12();
const StFns* st_13();
const StFns* st_14();
const std::vector<const StFns*>& st_table() { static const std::vector<const StFns*> t = {st_0(), st_1(), st_2(), st_3(), st_4(), st_5(), st_6(), st_7(), st_8(), st_9(), st_10(), st_11(), st_12(), st_13(), st_14()}; return t; }
}
