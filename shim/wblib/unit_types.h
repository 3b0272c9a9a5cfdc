#pragma once
#include <string>
#include <vector>
namespace WBMQTT
{
    const std::vector<std::string>& GetUnitTypes();
}
