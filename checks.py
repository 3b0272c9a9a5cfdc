"""What each check builds and how much it generates: (cases, seconds) per tier. The seconds only bound a slow machine."""
LEVEL = "exploration"
MB = ["src/modbus_base.cpp", "src/crc16.cpp", "src/bin_utils.cpp", "src/common_utils.cpp", "src/serial_exc.cpp",
      "src/port/port.cpp"]
CHECKS = {
    "M01": dict(src=["m01_rtu.cpp", "simclock.cpp"], repo=MB + ["src/log.cpp"], shim=True, quick=(400000, 25), thorough=(40000000, 900)),
    "M02": dict(src=["m02_tcp.cpp", "simclock.cpp"], repo=MB + ["src/log.cpp"], shim=True, quick=(200000, 25), thorough=(20000000, 900)),
    "M03": dict(src=["m03_pdu.cpp"], repo=MB + ["src/log.cpp"], shim=True, quick=(1500000, 25), thorough=(100000000, 900)),
    "C01": dict(src=["c01_bytes.cpp"], repo=["src/bin_utils.cpp"], quick=(1500000, 25), thorough=(100000000, 600)),
    "C02": dict(src=["c02_bcd.cpp"], repo=["src/bcd_utils.cpp"], quick=(3000000, 25), thorough=(300000000, 600)),
    "C03": dict(src=["c03_stuffing.cpp"], repo=["src/bin_utils.cpp"], quick=(1000000, 25), thorough=(80000000, 600)),
    "C04": dict(sanitize=False, flags=["-O2"], src=["c04_versions.cpp"], repo=["src/common_utils.cpp"], quick=(60000, 25), thorough=(3000000, 600)),
    "C05": dict(src=["c05_topics.cpp"], repo=["src/common_utils.cpp"], quick=(2000000, 25), thorough=(100000000, 300)),
    "E01": dict(src=["e01_expr.cpp"], repo=["src/expression_evaluator.cpp"], quick=(300000, 25), thorough=(30000000, 900)),
    "E02": dict(src=["e02_exprsyntax.cpp"], repo=["src/expression_evaluator.cpp"], quick=(2000000, 25), thorough=(60000000, 900)),
    "P01": dict(src=["p01_queue.cpp"], repo=[], quick=(4000000, 20), thorough=(300000000, 600)),
    "P02": dict(src=["p02_scheduler.cpp"], repo=[], quick=(3000000, 20), thorough=(300000000, 900)),
    "P03": dict(src=["p03_rate.cpp"], repo=["src/common_utils.cpp"], quick=(4000000, 20), thorough=(300000000, 600)),
    "F01": dict(src=["f01_files.cpp"], repo=["src/file_utils.cpp"], quick=(60000, 25), thorough=(4000000, 600)),
    "R01": dict(src=["r01_values.cpp"], shim=True, repo=["src/bcd_utils.cpp", "src/bin_utils.cpp", "src/crc16.cpp", "src/log.cpp", "src/modbus_base.cpp",
                "src/port/port.cpp", "src/register.cpp", "src/register_value.cpp", "src/serial_exc.cpp"], quick=(1500000, 20), thorough=(100000000, 900)),
    "D02": dict(src=["d02_write.cpp", "simclock.cpp"], shim=True, repo="all", quick=(400000, 25), thorough=(30000000, 1200)),
    "D03": dict(src=["d03_setup.cpp", "simclock.cpp"], shim=True, repo="all", quick=(180000, 25), thorough=(30000000, 1200)),
    "W01": dict(src=["w01_commands.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(200000, 25), thorough=(30000000, 1200)),
    "S01": dict(src=["s01_mqtt.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(200000, 25), thorough=(30000000, 1200)),
    "M04": dict(src=["m04_events.cpp", "simclock.cpp"], shim=True, repo="all", quick=(150000, 25), thorough=(10000000, 1200)),
    "P04": dict(src=["p04_poll.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(20000, 25), thorough=(3000000, 1200)),
    "D01": dict(src=["d01_read.cpp", "simclock.cpp"], shim=True, repo="all", quick=(150000, 25), thorough=(20000000, 1200)),
    "X01": dict(src=["x01_meters.cpp", "simclock.cpp"], shim=True, repo="all", quick=(200000, 25), thorough=(20000000, 1200)),
    "T01": dict(sanitize=False, flags=["-O2"], src=["t01_templates.cpp"], shim=True, repo="all", quick=(20000, 25), thorough=(3000000, 1200)),
    "K01": dict(sanitize=False, flags=["-O2"], src=["k01_config.cpp"], shim=True, repo="all", quick=(30000, 25), thorough=(3000000, 1200)),
    "Q01": dict(src=["q01_port_rpc.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(20000, 40), thorough=(2000000, 1200)),
    "Q02": dict(src=["q02_device_rpc.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(60000, 30), thorough=(6000000, 1200)),
    "U01": dict(src=["u01_fwupdate.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(60000, 25), thorough=(6000000, 1200)),
    "D04": dict(src=["d04_connection.cpp", "simclock.cpp", "simwait.cpp"], shim=True, repo="all", quick=(60000, 25), thorough=(6000000, 1200)),
    "N01": dict(flags=["-U_FORTIFY_SOURCE"], src=["n01_ports.cpp", "fakefd.cpp", "simclock.cpp"], repo=["src/port/file_descriptor_port.cpp", "src/port/port.cpp", "src/port/serial_port.cpp",
                "src/port/tcp_port.cpp", "src/port/feature_port.cpp", "src/modbus_base.cpp", "src/crc16.cpp", "src/bin_utils.cpp", "src/serial_exc.cpp",
                "src/common_utils.cpp", "src/log.cpp"], shim=True,
                ldflags=["-Wl," + ",".join("--wrap=" + f for f in "open close read write recv send ioctl select poll tcgetattr tcsetattr tcflush socket connect getsockopt setsockopt fcntl getaddrinfo".split())],
                quick=(400000, 25), thorough=(30000000, 900)),
    "X02": dict(src=["x02_curtains.cpp", "simclock.cpp"], shim=True, repo="all", quick=(200000, 15), thorough=(20000000, 1200)),
}
