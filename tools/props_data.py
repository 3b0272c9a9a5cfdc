prop("M01", "Modbus RTU: only an intact frame of the asked device is taken as the answer",
     "A Modbus RTU exchange sends the frame with the right slave id and CRC-16 and returns the response data only if the received "
     "frame is complete, has a valid CRC-16 and comes from the addressed slave. Damaged, truncated, foreign or missing answers end in the "
     "documented error for that case and never in data, and bytes left over from earlier exchanges do not become part of an answer.",
     ["inputs", "fault_sequences"],
     "for every request, every response content and length, every corruption, truncation, split into chunks and noise around the frame",
     "tests replay a dozen recorded exchanges with correct frames; corruption positions, lengths and chunkings are unbounded",
     ["src/modbus_base.cpp", "src/modbus_base.h", "src/crc16.cpp", "src/port/port.cpp"],
     [("CRC and slave id check of the received frame", "src/modbus_base.cpp TModbusRTUTraits::ReadFrame"),
      ("frame end detection by expected size", "src/modbus_base.cpp TModbusRTUTraits::ExpectNBytes"),
      ("CRC-16", "src/crc16.cpp CRC16::CalculateCRC16")])
prop("M02", "Modbus TCP: answers are matched to their request",
     "A Modbus TCP exchange sends a well-formed header with a transaction id that differs from the previous ones, and returns response "
     "data only from a frame with that transaction id, protocol 0, a consistent length and the addressed unit. Late answers to earlier "
     "requests are skipped, and a malformed header or a missing answer ends in an error, never in another request's data.",
     ["histories", "fault_sequences"],
     "for every sequence of requests, with answers delayed, dropped, damaged, split or duplicated arbitrarily",
     "tests send a few requests in lockstep with a correct server; histories of late and damaged answers are unbounded",
     ["src/modbus_base.cpp", "src/modbus_base.h", "src/port/port.cpp"],
     [("transaction id and header check", "src/modbus_base.cpp TModbusTCPTraits::ReadFrame"),
      ("transaction counter", "src/modbus_base.cpp TModbusTCPTraits::GetTransactionId")])
prop("M03", "Modbus requests and responses follow the protocol specification",
     "Every Modbus request is encoded byte for byte as the specification says for its function, and a request whose data does not fit the "
     "number of registers or coils is refused. A response is accepted only if its function matches and its length is consistent; an "
     "exception response is always reported as an exception with its code, never as data or success.",
     ["inputs"], "for every function, address, count and data, and every response of up to 256 bytes",
     "tests check a handful of requests and well-formed responses",
     ["src/modbus_base.cpp", "src/modbus_base.h"],
     [("request encoding", "src/modbus_base.cpp Modbus::MakePDU"),
      ("response decoding", "src/modbus_base.cpp Modbus::ExtractResponseData"),
      ("response size", "src/modbus_base.cpp Modbus::CalcResponsePDUSize")])
prop("C01", "Numbers and bytes convert exactly in both byte orders",
     "Converting bytes to a number and a number to bytes, little or big endian, at any width from one byte to the full type, gives exactly "
     "the positional value of the bytes and reads or writes only those bytes. The two directions are inverse to each other, and a mask of N "
     "low bits has exactly the N low bits set.",
     ["inputs"], "for every byte sequence, value, width, byte count and iterator kind",
     "tests use one or two byte patterns; wrong widths, sign bits and top bytes show only for particular values",
     ["src/bin_utils.h", "src/bin_utils.cpp"],
     [("conversion templates", "src/bin_utils.h BinUtils::Get, GetBigEndian, Append, AppendBigEndian"),
      ("mask", "src/bin_utils.cpp BinUtils::GetLSBMask")])
prop("C02", "BCD numbers keep their digits",
     "Encoding a decimal number as packed BCD of one to four bytes and decoding it gives the number back, with the most significant digit "
     "first, and a number that does not fit keeps its low digits. Packing BCD bytes into an integer keeps them in reading order and uses "
     "only the given number of bytes.",
     ["inputs"], "for every digit string and number at each of the four sizes",
     "no stable test covers BCD; the digit strings are too many to list",
     ["src/bcd_utils.h", "src/bcd_utils.cpp"],
     [("BCD conversions", "src/bcd_utils.cpp PackBytes, PackedBCD2Int, IntToBCDArray, IntToPackedBCD")])
prop("C03", "Byte stuffing is reversible",
     "Decoding byte-stuffed data restores the original bytes for any message and any set of unambiguous escape rules, including escapes at "
     "the very end and escape-like bytes in the data. Bytes that are not part of a complete escape sequence are left as they are.",
     ["inputs"], "for every rule set with one escape byte and every message, and for arbitrary damaged data",
     "the tests encode and decode one message",
     ["src/bin_utils.h", "src/bin_utils.cpp"],
     [("encoding", "src/bin_utils.h BinUtils::ApplyByteStuffing"), ("decoding", "src/bin_utils.cpp BinUtils::DecodeByteStuffing")])
prop("C04", "Firmware versions are totally ordered as documented",
     "Comparing firmware versions is a total order: empty < release candidates of a version (by number) < the version < its +wb builds (by "
     "number), components are compared as numbers from left to right and missing ones count as zero. The order is consistent (reflexive, "
     "antisymmetric, transitive) and the comparison never fails, whatever the strings are.",
     ["inputs"], "for all triples of version strings, well-formed, related or garbage",
     "tests compare 15 pairs; order axioms are about all pairs and triples",
     ["src/common_utils.h", "src/common_utils.cpp"],
     [("comparison", "src/common_utils.cpp util::CompareVersionStrings"), ("parsing", "src/common_utils.cpp ParseVersionString")])
prop("C05", "Names are converted to usable MQTT topic parts",
     "A name is reported as usable in a topic exactly if it has none of the characters ' \" / + $ #. Conversion replaces exactly those (quotes and slash "
     "by |, + by _plus_, $ and # by _), keeps everything else byte for byte, gives a usable name, and changes nothing when repeated.",
     ["inputs"], "for every byte string", "tests convert one string",
     ["src/common_utils.h", "src/common_utils.cpp"],
     [("conversion table", "src/common_utils.cpp ConvertToMqttStringMap, util::ConvertToValidMqttTopicString")])
prop("E01", "Conditions have their documented value for any parameters",
     "A condition over parameters evaluates with C++ precedence and left associativity; a comparison or logical operation with a parameter "
     "that is not set is false, except that != is true, and isDefined tells whether the parameter is set. The list of parameters a condition "
     "depends on is exactly the set of the names in it.",
     ["inputs", "configurations"], "for every condition tree, every redundant bracketing and every assignment of set and unset parameters",
     "tests evaluate 20 fixed conditions with two parameters; precedence and unset-parameter rules interact in unboundedly many trees",
     ["src/expression_evaluator.h", "src/expression_evaluator.cpp"],
     [("tree by priority", "src/expression_evaluator.cpp TreeByPriority"), ("evaluation", "src/expression_evaluator.cpp EvalImpl"),
      ("dependencies", "src/expression_evaluator.cpp GetDependencies")])
prop("E02", "Exactly the strings of the documented grammar are accepted as conditions",
     "A string is accepted as a condition exactly if the documented grammar derives it; any other string is refused with an error message "
     "whose position, if given, lies in the string. No string makes parsing, evaluation or dependency analysis of a condition crash or hang.",
     ["inputs"], "for every string of tokens, damaged conditions and arbitrary bytes",
     "tests have two short lists of good and bad conditions",
     ["src/expression_evaluator.h", "src/expression_evaluator.cpp"],
     [("lexer", "src/expression_evaluator.cpp TLexer"), ("parser", "src/expression_evaluator.cpp TParser")])
prop("P01", "The schedule gives entries back in deadline order and loses none",
     "Whatever the history of additions, removals and takes, the first entry of a schedule is one with the earliest deadline (ties by the "
     "entries' own order), and the schedule holds exactly the entries added and not yet taken or removed. Its deadline, due, contains and empty "
     "answers agree with that content.",
     ["histories"], "for every history of up to 60 operations with equal deadlines, repeated entries and removals from the middle",
     "one test adds three entries and takes them",
     ["src/poll_plan.h"], [("heap with removal", "src/poll_plan.h TPriorityQueue"), ("order", "src/poll_plan.h TPriorityQueueSchedule")])
prop("P02", "Polling serves high priority first but never starves low priority",
     "Only due entries are selected, in deadline order and from one class at a time: due high-priority entries first, unless the time they took "
     "has reached the allowed lag, in which case a due low-priority entry is taken at once. Low-priority entries otherwise get no more "
     "time than is left until the next high-priority deadline (or than the exceeded lag), the accounted time stays within twice the lag, and no entry is lost, "
     "duplicated or offered after a refusal.",
     ["histories", "schedules"], "for every history of additions, selections with any answers, time accounting, removals and time steps",
     "tests run four fixed schedules",
     ["src/poll_plan.h"], [("selection", "src/poll_plan.h TScheduler::AccumulateNext"), ("balance", "src/poll_plan.h TTotalTimeBalancer")])
prop("P03", "Rate limit, response time average and elapsed time are exact",
     "The rate limiter reports excess exactly while more than the allowed number of items fell into the current window (it starts at the whole "
     "second of its first item, lasts one second, and the first item after it opens the next one); limit 0 means no limit. The running average weights the "
     "old value (N-1)/N and stays between old and new value, and elapsed time is rounded up to microseconds.",
     ["histories", "inputs"], "for every sequence of item times, limits and values",
     "one test counts three items within a millisecond; windows that end and reopen are not reached",
     ["src/poll_plan.h", "src/running_average.h", "src/common_utils.cpp"],
     [("limiter", "src/poll_plan.h TRateLimiter"), ("average", "src/running_average.h TRunningAverage"),
      ("elapsed time", "src/common_utils.cpp util::TSpentTimeMeter")])
prop("F01", "File helpers visit, open and write exactly what they should",
     "A directory walk visits every entry once until told to stop, a search visits exactly the entries whose name contains the pattern (in sorted "
     "order if asked) and returns the one it stopped at, and opening one of several files takes the first that exists. A write replaces "
     "the whole content of the file, and a missing directory or file is reported, not ignored.",
     ["inputs", "configurations"], "for every generated directory content, pattern, list and stop position",
     "no stable test covers the file helpers",
     ["src/file_utils.h", "src/file_utils.cpp"],
     [("walk and search", "src/file_utils.cpp IterateDir, IterateDirByPattern"), ("open and write", "src/file_utils.cpp TryOpen, WriteToFile")])
prop("R01", "Register values and their text representation correspond exactly",
     "The published text of a register is the value of its raw bits under its format (signed, unsigned, 24-bit, BCD, float, double, char, string), "
     "times scale, plus offset, rounded to round_to. Writing that text, or any number the format can represent, stores the raw bits whose value is nearest; "
     "text that is not a number is refused, and only the register's own bits are used.",
     ["inputs", "configurations"], "for every format, word order, scale, offset, rounding, raw bit pattern and text",
     "tests convert a few dozen value pairs; sign, width, rounding and scale interact in unboundedly many combinations",
     ["src/register.cpp", "src/register_value.cpp", "src/bcd_utils.cpp"],
     [("raw to text", "src/register.cpp ConvertFromRawValue"), ("text to raw", "src/register.cpp ConvertToRawValue"),
      ("raw value", "src/register_value.cpp TRegisterValue")])
prop("D01", "Modbus reads give every register its own bits, within the limits",
     "Polling registers over Modbus asks for exactly the addresses of the grouped registers, within the device's limits for request size, "
     "holes and time, and gives every register the value of its own bits in the device's memory, whatever its neighbours, formats and byte and word orders. "
     "A failed or refused request leaves the old values and marks exactly its registers; a register the device refuses alone is not asked again, and a "
     "refusal of a request with holes only stops reading with holes.",
     ["configurations", "histories", "fault_sequences"],
     "for every layout of registers and bit fields, every limit, every memory content with illegal addresses and every sequence of polls with failing exchanges",
     "tests read a few fixed layouts from a fake device; combinations of holes, limits, widths, availability and faults are unbounded",
     ["src/modbus_common.cpp", "src/modbus_common.h", "src/devices/modbus_device.cpp", "src/serial_device.cpp"],
     [("grouping", "src/modbus_common.cpp TModbusRegisterRange::Add"), ("reading", "src/modbus_common.cpp ReadRegisterRange"),
      ("values", "src/modbus_common.cpp ParseReadResponse")])
prop("D02", "Modbus writes change exactly the bits of the written register",
     "Writing a register over Modbus with any of the register types leaves exactly the new value in the register's own bits of the device's memory and no "
     "other bit changed, provided the neighbouring bits were read or written before. It uses the function of the register type, a read of the register then returns what was written, and a "
     "refused or failed write is reported as an error.",
     ["configurations", "histories", "fault_sequences"],
     "for every layout of registers, bit fields and strings, every value, every order of reads and writes and every failing exchange",
     "tests write a few values to whole registers; bit fields over several registers, byte orders and histories are unbounded",
     ["src/modbus_common.cpp", "src/modbus_common.h", "src/devices/modbus_device.cpp"],
     [("writing", "src/modbus_common.cpp WriteRegister"), ("request", "src/modbus_common.cpp ComposeWriteRequests")])
prop("D03", "Setup of a Modbus device is written completely, in order, or again",
     "Before a disconnected or new device is polled, all its setup values are written so that its memory holds each of them, in ascending order of addresses, grouped "
     "only within the limits, and with the other bits of partially written registers preserved. A register the device refuses is skipped and the others "
     "are written; if an exchange fails in any other way, the setup is repeated from the start before the next poll.",
     ["configurations", "fault_sequences"],
     "for every set of setup items of all types, every memory content with illegal addresses and every sequence of failing exchanges",
     "tests write two or three setup values to whole registers without faults in between",
     ["src/modbus_common.cpp", "src/serial_device.cpp", "src/devices/modbus_device.cpp", "src/devices/modbus_io_device.cpp"],
     [("setup requests", "src/modbus_common.cpp WriteSetupRegisters"), ("when", "src/serial_device.cpp TSerialDevice::Prepare")])
prop("D04", "A silent device is disconnected, tried sparingly and set up on return",
     "A device that worked becomes disconnected only when both device_timeout_ms passed since the last successful exchange and no register of it was read in "
     "device_max_fail_cycles consecutive polling cycles (a closed port counts as one failed cycle), and then it does become; 0 makes a condition always true, -1 of either "
     "turns disconnection off, and an answering device is not disconnected. In a cycle a disconnected device is asked only till the first failure; the pauses between "
     "attempts grow by 500 ms up to 10 s and no more. The first success reconnects it: all its setup is written before it is polled, and not again while it stays connected.",
     ["configurations", "histories", "fault_sequences"],
     "for every combination of the settings, registers, setups and priorities and every history of devices going off and on, lost answers and a closed port",
     "no stable test runs the poll loop; counters and timers depend on the whole history of successes and failures",
     ["src/serial_device.cpp", "src/serial_client_register_poller.cpp", "src/serial_client_device_access_handler.cpp", "src/pollable_device.cpp"],
     [("connection state", "src/serial_device.cpp SetTransferResult, Prepare"), ("pauses", "src/serial_client_register_poller.cpp ScheduleNextPoll"),
      ("closed port", "src/serial_client_register_poller.cpp ClosedPortCycle")])
prop("P04", "The poll loop asks every register as often as configured",
     "While devices go off and on, answers get lost and the port cannot be opened, a register is never polled more often than its read_period_ms or read_rate_limit_ms, "
     "low-priority sessions of a device keep min_request_interval_ms, and a disconnected device is tried at growing pauses; the port is closed and reopened only as "
     "the connection settings say. A register's value is passed on exactly when it was read, and an error exactly when the exchange failed. As soon as everything "
     "works, every register the devices support is polled again, and high-priority registers in time if the load is light.",
     ["histories", "schedules", "fault_sequences"],
     "for every set of devices, registers, poll and timeout settings and every sequence of device, answer and port failures over virtual time",
     "tests run a few fixed poll plans against a fake device that never fails; starvation and spacing depend on the whole history",
     ["src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/pollable_device.cpp", "src/poll_plan.h", "src/port/port.cpp"],
     [("poll cycle", "src/serial_client_register_poller.cpp OpenPortCycle, ScheduleNextPoll"), ("device session", "src/pollable_device.cpp ReadRegisterRange"),
      ("port", "src/port/port.cpp TPortOpenCloseLogic")])
prop("W01", "A commanded value reaches the device or fails visibly",
     "A value commanded to a register is written before the next polling of the port as soon as the port is open and the device is not disconnected. Only the last "
     "commanded value is written; a failed write is repeated before every polling cycle until it succeeds, the device refuses it (Modbus exceptions 1 to 3), or "
     "max_write_fail_time_s has passed (0: one attempt), and a value is never written again after that. Every attempt is reported: success with the written value "
     "and without the write error, failure with the write error, which stays until a write succeeds. A text that is not a value of the register is refused and has no effect.",
     ["histories", "schedules", "fault_sequences"],
     "for every sequence of commands at any moment (between cycles, while the client waits, while a request is on the line) and of device, answer and port failures",
     "tests write a few values to a device that works, or that fails in one fixed way; commands during retries and reconnections are never sampled",
     ["src/register_handler.cpp", "src/write_channel_serial_client_task.cpp", "src/serial_client.cpp", "src/register.cpp"],
     [("pending value and retries", "src/register_handler.cpp TRegisterHandler"), ("write task", "src/write_channel_serial_client_task.cpp Run"),
      ("task queue", "src/serial_client.cpp WaitForPollAndFlush, SetTextValue")])
prop("S01", "MQTT controls show what the registers hold and pass commands on",
     "A value read from or written to the registers of a control is published as the control's value: registers joined with ';', on_value and off_value shown as 1 "
     "and 0, after every register of the control was read. It is published on change, on every poll or again after max_unchanged_interval as configured; the zero of "
     "a press counter after a disconnection is withheld. The control's error is made of r, w and p of its registers, the device's error is r while it is disconnected. "
     "A value written to an on topic goes to the registers of a writable control item by item with 1 and 0 replaced by on_value and off_value; an invalid one changes nothing.",
     ["histories", "fault_sequences"],
     "for every set of controls and every history of register changes, failures, disconnections, restarts and commands",
     "tests compare logs of a few fixed scenarios; publication depends on the whole history of values, errors and times",
     ["src/serial_port_driver.cpp", "src/register.cpp", "src/serial_client.cpp"],
     [("publication", "src/serial_port_driver.cpp TDeviceChannel::UpdateValueAndError"), ("commands", "src/serial_port_driver.cpp SetValueToChannel"),
      ("device errors", "src/serial_port_driver.cpp OnDeviceConnectionStateChanged")])
prop("M04", "Fast Modbus events reach their registers exactly once",
     "Events of the enabled registers are read packet by packet; a packet is confirmed to its device only after it was received intact, so that every event is taken exactly once and in order "
     "although requests and answers get lost or damaged, and the value goes to exactly the registers (and bit fields) at that address. Enabling asks for exactly the supported number registers with "
     "events, at their priority, nothing between them, and stops the regular polling of those the device confirmed, except for one register of a device with events only. Unexpected events are switched off, a reboot "
     "disconnects its device, more than 10 failed readings in a row are shown as read errors until the next good one. A scan returns the devices found up to its end or error.",
     ["histories", "fault_sequences", "configurations"],
     "for every set of devices and registers, every history of changes, reboots and disconnections and every sequence of lost and damaged exchanges",
     "tests replay single packets and a few fixed event histories; confirmation, loss and partial enabling depend on the whole history",
     ["src/modbus_ext_common.cpp", "src/serial_client_events_reader.cpp"],
     [("reading of events", "src/modbus_ext_common.cpp ReadEvents"), ("enabling", "src/modbus_ext_common.cpp TEventsEnabler"),
      ("distribution", "src/serial_client_events_reader.cpp TModbusExtEventsVisitor"), ("scan", "src/modbus_ext_common.cpp Scan")])
prop("X01", "Meters, relays and sensors: only a whole, matching answer becomes a value",
     "A register of a device with one of the other protocols (Mercury 200 and 230, Milur, Energomera CE and IEC 61107, Neva, IEC 61107 mode C, IVTM-7, LLS, Pulsar, S2000, Uniel) is asked for with a "
     "correct request and gets exactly the number at its place in the answer: with the right width, sign and byte order, only if the answer is undamaged, complete, from that device and for that request (as "
     "far as the protocol tells); otherwise the register gets an error, never a wrong value, an endless loop or a crash, and the next good answer is read again. Sessions are opened with the right password and speed, again "
     "when the meter closed them, and ended; afterwards and after a failure the port has its own settings. Commands are sent as specified and succeed exactly if the device confirms them.",
     ["inputs", "fault_sequences", "configurations", "histories"],
     "for every address, register type and format, every memory content and every sequence of lost, damaged, foreign, shortened, doubled and late answers",
     "tests replay one or two recorded dialogues of each device without faults",
     ["src/devices/mercury200_device.cpp", "src/devices/mercury230_device.cpp", "src/devices/milur_device.cpp", "src/devices/em_device.cpp", "src/devices/energomera_ce_device.cpp",
      "src/devices/energomera_iec_device.cpp", "src/devices/energomera_iec_mode_c_device.cpp", "src/devices/iec_mode_c_device.cpp", "src/iec_common.cpp", "src/devices/neva_device.cpp",
      "src/devices/ivtm_device.cpp", "src/devices/lls_device.cpp", "src/devices/pulsar_device.cpp", "src/devices/s2k_device.cpp", "src/devices/uniel_device.cpp"],
     [("sessions with a password", "src/devices/em_device.cpp Talk"), ("IEC 61107 sessions", "src/iec_common.cpp PrepareImpl, EndSession"), ("answers", "src/devices/*_device.cpp ReadRegisterImpl")])

prop("X02", "Curtain motors: requests, positions and commands",
     "A register of a curtain motor (WinDeco, Dooya, Somfy SDN, A-OK/Dauerhaft) is asked for with a correct request and gets the position, angle, state or setting at its place in an undamaged, complete answer of that motor "
     "to that request; a position that the motor doesn't know (out of 0..100) and any damaged, foreign, shortened, late or missing answer give an error and never a wrong value. Opening, closing, moving to a position, tilting, buttons and settings "
     "send exactly the specified command and succeed exactly if the motor confirms them as its protocol provides; writing one of several settings packed in one message leaves the other settings as they were read from the motor.",
     ["inputs", "fault_sequences", "configurations", "histories"],
     "for every motor address, every position and setting and every sequence of readings, commands and lost, damaged, foreign, shortened and late answers",
     "tests parse a few fixed answers",
     ["src/devices/curtains/windeco_device.cpp", "src/devices/curtains/dooya_device.cpp", "src/devices/curtains/somfy_sdn_device.cpp", "src/devices/curtains/a_ok_device.cpp"],
     [("answers", "src/devices/curtains/*_device.cpp Check, GetCachedResponse"), ("commands and settings", "src/devices/curtains/*_device.cpp WriteRegisterImpl")])
prop("T01", "User templates: uploaded and deleted completely or not at all",
     "An upload of a valid template stores exactly its content in the folder of user templates under the requested name (cleaned, never outside "
     "the folder, with a number if the name belongs to something else), replaces the previous user template of the type, and makes it the active one "
     "at once; a deletion brings back the stock template or removes the type. Any invalid template, request or name, and one of a type in use without "
     "force, is refused and changes nothing: neither files nor device types. Device types, their descriptions and the editor's schemas always "
     "correspond to the files, also after changes by others, and are the same as after a restart.",
     ["histories", "inputs"],
     "for every content and name of a template, every set of stock, user and foreign files and every history of uploads, deletions, external changes and restarts",
     "the repository's tests upload a few templates into an empty folder; damaged contents, name collisions and histories are unbounded",
     ["src/rpc/rpc_templates_handler.cpp", "src/templates_map.cpp", "src/confed_device_schemas_map.cpp", "src/rpc/rpc_device_type_json.cpp"],
     [("upload and deletion", "src/rpc/rpc_templates_handler.cpp TRPCTemplatesHandler::UploadTemplate, DeleteTemplate"),
      ("validation and list of templates", "src/templates_map.cpp TTemplateMap::ValidateTemplate, UpdateTemplate, DeleteTemplate"),
      ("cache of editor schemas", "src/confed_device_schemas_map.cpp TDevicesConfedSchemasMap::GetSchema, InvalidateCache")])
prop("Q01", "Port RPCs do exactly what they ask for, once, and leave polling undisturbed",
     "Each port/Load, port/Setup, port/Scan and device/Probe request is answered exactly once. A request that can be performed sends exactly the "
     "bytes or Modbus frames it describes, with its own line settings on a serial port, in order of arrival, and is answered with what the "
     "line answered: the bytes, the data, the Modbus exception, the devices found with their serial numbers, signatures and settings, or an error if "
     "nothing or something damaged came. A malformed request (fields out of range, wrong hex, data that does not fit the function) is refused without a byte "
     "on the line, and a request older than its total timeout is not performed. After a request, even one that failed because the port broke, "
     "the configured line settings are back and polled registers keep being polled and keep their true values.",
     ["histories", "fault_sequences", "schedules"],
     "for every history of valid and malformed requests, answers, losses, broken ports and moments of arrival, on serial, RTU over TCP and Modbus TCP ports",
     "the repository's tests of RPC handlers cover parsing of some parameters; mixing of requests with polling, faults and line settings is unbounded",
     ["src/rpc/rpc_port_handler.cpp", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp", "src/rpc/rpc_port_load_raw_serial_client_task.cpp",
      "src/rpc/rpc_port_setup_serial_client_task.cpp", "src/rpc/rpc_port_scan_serial_client_task.cpp", "src/rpc/rpc_device_probe_task.cpp",
      "src/rpc/rpc_port_driver_list.cpp", "src/rpc/rpc_port_load_request.cpp", "src/serial_client.cpp", "src/port/port.cpp", "src/modbus_base.cpp"],
     [("frames and answers of port/Load", "src/rpc/rpc_port_load_modbus_serial_client_task.cpp ExecRPCPortLoadModbusRequest"),
      ("scan and probe", "src/rpc/rpc_port_scan_serial_client_task.cpp GetDeviceDetails, ExecRPCPortScanRequest"),
      ("line settings", "src/port/port.cpp TSerialPortSettingsGuard"),
      ("tasks between polls", "src/serial_client.cpp TSerialClient::WaitForPollAndFlush")])
prop("Q02", "Device RPCs read and write what templates describe and don't disturb polling",
     "Each device/Load, Set, LoadConfig and SetPoll request is answered once. Load returns the true values of exactly the asked channels and parameters whose "
     "conditions and firmware hold, \"unsupported\" for registers the device lacks, and which are read only. Set writes exactly the asked items, reports success only if "
     "all are written, and refuses unknown or read only ones. LoadConfig returns model, firmware and parameters: values of the configuration of this very "
     "device first, later true ones, never outdated by Set or a disconnection; a device that does not match its template is refused. Continuous read is left as "
     "configured. A device suspended by SetPoll is not polled till resumed or ten minutes passed, then it is set up and polled; no request makes polling skip the setup.",
     ["histories", "inputs", "fault_sequences"],
     "for every template, configuration, device (missing registers, other model or firmware) and history of requests, polling, losses, reconnections and lapses of time",
     "the repository's tests of these handlers check parsing of a few requests; what the request leaves in the device, the cache and the poll loop depends on the history",
     ["src/rpc/rpc_device_handler.cpp", "src/rpc/rpc_device_load_task.cpp", "src/rpc/rpc_device_set_task.cpp", "src/rpc/rpc_device_load_config_task.cpp",
      "src/rpc/rpc_helpers.cpp", "src/serial_client_register_poller.cpp", "src/serial_device.cpp"],
     [("values and unsupported registers", "src/rpc/rpc_device_handler.cpp ReadRegisterList, src/rpc/rpc_helpers.cpp MarkUnsupportedRegisterItems"),
      ("cache and template check", "src/rpc/rpc_device_load_config_task.cpp ExecRPCRequest"),
      ("suspension of polling", "src/serial_client_register_poller.cpp SuspendPoll, ResumePoll")])
prop("U01", "Firmware updates write exactly the released image and report every failure",
     "fw-update/GetFirmwareInfo answers with what the device told (signature, versions, model, components) and with the releases listed for this very signature and "
     "release suite; has_update is told exactly when the release is newer (a component: differs). Update and Restore reboot the device by the register it supports, "
     "wait till it is ready, then write the released file in order without gaps or repetitions: 32 bytes of information to 0x1000, blocks of up to 136 bytes to 0x2000, "
     "each tried at most 3 times; a block the device reports as already written counts as written. A refused information block or a block failed 3 times ends the "
     "step; the bootloader is followed by the firmware. Success is shown only if the whole image was accepted, progress never exceeds what is written nor goes back, and "
     "each failure is answered or shown as an error till it is cleared. Only one update runs at a time, other slaves are not touched, and the line settings are restored.",
     ["histories", "inputs", "fault_sequences"],
     "for every set of releases, device (signature, versions, components, supported registers, bootloader or firmware running), request and sequence of losses and exceptions",
     "the repository's tests drive a few fixed exchanges with a fake port; which block is repeated or skipped after which failure, and what is shown then, depends on the history",
     ["src/rpc/rpc_fw_update_handler.cpp", "src/rpc/rpc_fw_update_task.cpp", "src/rpc/rpc_fw_update_serial_client_task.cpp", "src/rpc/rpc_fw_restore_task.cpp", "src/rpc/rpc_fw_get_firmware_info_task.cpp", "src/rpc/rpc_fw_downloader.cpp", "src/rpc/rpc_fw_update_state.cpp"],
     [("flashing", "src/rpc/rpc_fw_update_serial_client_task.cpp, rpc_fw_update_task.cpp"), ("releases", "src/rpc/rpc_fw_downloader.cpp"),
      ("requests and state", "src/rpc/rpc_fw_update_handler.cpp")])
prop("K01", "Configuration and templates give exactly the devices they describe",
     "A configuration with its device templates is either refused as a whole or results in exactly the enabled ports and devices it lists, each with "
     "the settings, protocol, name and id given by the configuration, else by the template, else by the port or the documented default. A device's "
     "channels are those of the template whose conditions hold, with the user's permitted settings, plus the user's own ones; its setup items are the "
     "user's, parameters', and the template's whose conditions hold. Each register has the written address, type, format, bits, scale, byte and word "
     "order, polling period and special values. Subdevices shift, stride, prefix and translate as described. A valid configuration is never refused; "
     "duplicate ports, slave ids or device ids, unknown types and parameters out of range always are.",
     ["inputs"],
     "for every configuration of ports, devices, channels, parameters and setup items and every device template with conditions, subdevices and translations",
     "the repository's tests load a few sample files and compare dumps; combinations of template features with the user's settings are unbounded",
     ["src/serial_config.cpp", "src/config_merge_template.cpp", "src/config_schema_generator.cpp", "src/subdevices_config/config_schema_generator.cpp", "src/old_serial_config.cpp"],
     [("loading", "src/serial_config.cpp LoadConfig, TSerialDeviceFactory::CreateDevice, LoadRegisterConfig, LoadChannel, Translate"),
      ("merge with templates", "src/config_merge_template.cpp MergeDeviceConfigWithTemplate, UpdateChannels, AppendSetupItems"),
      ("validation", "src/config_schema_generator.cpp ValidateConfig, MakeSchemaForDeviceConfigValidation")])
prop("N01", "Ports keep time, bytes, settings and descriptors right",
     "A serial or TCP port sends exactly the given bytes with the current line settings, and a frame it reads is exactly what arrived after the last "
     "write, in order: awaited no less than the response timeout (the greater of the port's and the request's) and no longer than that plus the "
     "documented lag of the transport, ended by a pause longer than the frame timeout, the requested size or the completion test. Pauses before "
     "requests count from the end of the last transmission or reception at the current baud rate and format. Noise is skipped until silence, and an "
     "endless flow is reported as an error after at most three reopenings. Any failure of a system call or a peer that closes gives an error of the device "
     "family; no descriptor leaks or is used after closing; a closed serial device gets its old attributes back, a reopened one its settings. The port is "
     "reopened no more often than the reopen timeout and closed for reconnection only after both the time and the number of failed cycles.",
     ["inputs", "schedules", "fault_sequences"],
     "for every history of writes, reads, pauses, settings, reopenings, arrivals of data in any chunks at any moment, noise, closing peers and failing system calls",
     "no stable test opens a port; timing of arrivals and failures of the operating system can't be scheduled with real devices",
     ["src/port/file_descriptor_port.cpp", "src/port/serial_port.cpp", "src/port/tcp_port.cpp", "src/port/feature_port.cpp", "src/port/port.cpp"],
     [("reading of frames, noise", "src/port/file_descriptor_port.cpp ReadFrame, SkipNoise, WriteBytes"),
      ("timeouts, line settings", "src/port/serial_port.cpp TSerialPort"),
      ("connection", "src/port/tcp_port.cpp TTcpPort::Open, OnReadyEmptyFd"),
      ("reopening", "src/port/port.cpp TPortOpenCloseLogic")])
