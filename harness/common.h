// Shared by all harnesses
#pragma once
#include "vs.h"
#include <wreport/error.h>
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/vartable.h>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace wreport;
// Vacuity rule: every harness must reach each label it declares with
// vs_reach() (the driver knows the list from the harness table).
#define ASSERT(c) vs_assert((c) ? 1 : 0, #c)
#define ASSERTL(c, l) vs_assert((c) ? 1 : 0, l)
