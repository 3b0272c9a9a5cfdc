#pragma once
#include "json_utils.h"
#include "log.h"
#include "rpc.h"
#include "wbmqtt_core.h"
