#pragma once
#include "pbt.h"
namespace c08 {
void chrono_compile_time(pbt::Src& s, pbt::Ctx& c);
unsigned chrono_entries();
}
