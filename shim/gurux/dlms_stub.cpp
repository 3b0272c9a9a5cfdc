// DLMS needs gurux, which is not available: the protocol is not registered in the verification build.
#include "devices/dlms_device.h"
void TDlmsDevice::Register(TSerialDeviceFactory&)
{}
namespace DLMS
{
    void PrintDeviceTemplateGenerationOptionsUsage()
    {}
    void GenerateDeviceTemplate(TDeviceTemplateGenerationMode,
                                PPort,
                                const std::string&,
                                const std::string&,
                                const std::vector<std::string>&)
    {}
}
