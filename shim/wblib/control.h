#pragma once
#include "wbmqtt_core.h"
