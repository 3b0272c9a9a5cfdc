#pragma once
#include "testlog.h"
