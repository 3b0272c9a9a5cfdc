#pragma once
#include "declarations.h"
#include "wbmqtt_core.h"
