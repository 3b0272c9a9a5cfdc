// Minimal declarations standing in for gurux (absent here): enough to parse devices/dlms_device.h
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
enum DLMS_SECURITY { DLMS_SECURITY_NONE = 0 };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE = 0 };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC = 0 };
class CGXByteBuffer {};
class CGXReplyData {};
class CGXDLMSObject {};
class CGXDLMSObjectCollection: public std::vector<CGXDLMSObject*> {};
class CGXDLMSSecureClient {};
