"""Which executables decide which property, and how."""
from build import Exe, swampd_sources

UNIT_CORE = ["pid/ec/pid.cpp", "pid/ec/logging.cpp", "pid/pidcontroller.cpp", "pid/util.cpp", "pid/tuning.cpp"]
FAN = UNIT_CORE + ["pid/fancontroller.cpp"]
THERMAL = UNIT_CORE + ["pid/thermalcontroller.cpp"]
STEP = UNIT_CORE + ["pid/ec/stepwise.cpp", "pid/stepwisecontroller.cpp"]
CTL = list(dict.fromkeys(FAN + THERMAL))

MODEL = "property-based testing: generated histories against an independent reference model"
UNITNOTE = ("Generated configurations and histories drive the real controller code through a scripted zone; every step is compared "
            "with a reference model written from the documented behaviour. Assurance is that of the cases explored "
            "(counts in the evidence); trusts the reference model and the compiler.")

BUSNOTE = ("The real code runs against an in-process fake of the bus libraries; every observable is compared with a reference model "
           "after each step. Trusts the model and the fake's rendering of D-Bus semantics (match rules, typed messages, errors).")
PASSIVE = ["dbus/dbuspassive.cpp", "dbus/dbushelper.cpp", "dbus/dbusutil.cpp", "dbus/dbuspassiveredundancy.cpp",
           "failsafeloggers/failsafe_logger_utility.cpp", "pid/tuning.cpp"]
CLK = "rt/vclock.cpp"
WRITE = ["dbus/dbuswrite.cpp", "dbus/dbushelper.cpp", "dbus/dbusutil.cpp", "sysfs/sysfswrite.cpp", "sysfs/util.cpp",
         "sensors/pluggable.cpp", "notimpl/readonly.cpp", "notimpl/writeonly.cpp", "pid/tuning.cpp"]

JSON = ["buildjson/buildjson.cpp", "sensors/buildjson.cpp", "pid/buildjson.cpp", "util.cpp"]
ROUND = "property-based testing: generated configurations rendered to JSON files and compared with what is built from them"
MUT = "property-based testing and structure-aware fuzzing: mutated documents against an acceptance oracle, sanitized build"
JSONNOTE = ("The real file parser and both builders run on generated documents; expectations come from the abstract configuration the "
            "document was rendered from. Trusts nlohmann::json's parser and the rendering.")


# everything but main.cpp
CORE = [x for x in swampd_sources() if x != "main.cpp"]
RIGNOTE = ("The real builders, zones and control loop run on a virtual clock against a fake system (D-Bus objects, files, host power); "
           "each pass is compared with a reference model of the zone. Trusts the model, the fake bus and the clock substitution.")

DIFF = "property-based testing: differential runs of generated systems and histories"
DIFFNOTE = ("The real builders, zones and control loop run twice on a virtual clock against a fake system under the same history; "
            "the two runs must command the same. Trusts the fake bus and the clock substitution.")


HIST = "property-based testing: generated histories of events around the whole daemon, judged against an oracle over its commands"
DAEMONNOTE = ("The whole daemon, main() included, runs in a child process whose event loop moves on virtual time, with scheduled signals, "
              "files and bus traffic; its commands, objects and exit are judged. Trusts the fake bus, the clock and select() substitution.")


def rig(name, src, configs=("V0",), **kw):
    return [Exe(name + cfg.lower(), [src, CLK], CORE, config=cfg, **kw) for cfg in configs]


def two(name, harness, repo, **kw):
    return [Exe(name + "v0", harness, repo, config="V0", **kw), Exe(name + "v1", harness, repo, config="V1", **kw)]


CHECKS = {
    "C01": dict(exes=[Exe("c01", ["props/c01.cpp"], CTL, shim=False)], technique=MODEL, note=UNITNOTE),
    "C02": dict(exes=[Exe("c02", ["props/c02.cpp"], CTL, shim=False)], technique=MODEL, note=UNITNOTE),
    "C03": dict(exes=[Exe("c03", ["props/c03.cpp"], STEP, shim=True)], technique=MODEL, note=UNITNOTE),
    "C04": dict(exes=[Exe("c04", ["props/c04.cpp"], THERMAL, shim=False)], technique=MODEL, note=UNITNOTE),
    "C05": dict(exes=[Exe("c05", ["props/c05.cpp"], FAN, shim=False)], technique=MODEL, note=UNITNOTE),
    "C06": dict(exes=rig("c06", "props/c06.cpp"), technique=MODEL, note=RIGNOTE),
    "C07": dict(exes=rig("c07", "props/c07.cpp", ("V0", "V1")), technique=MODEL, note=RIGNOTE),
    "C08": dict(exes=[Exe("c08v0", ["props/c08.cpp"], FAN, config="V0", shim=False),
                      Exe("c08v1", ["props/c08.cpp"], FAN, config="V1", shim=False)] + rig("c08b", "props/c08b.cpp", ("V0", "V1")), technique=MODEL, note=UNITNOTE),
    "C09": dict(exes=rig("c09", "props/c09.cpp"), technique=MODEL, note=RIGNOTE),
    "C10": dict(exes=rig("c10", "props/c10.cpp"), technique=MODEL, note=RIGNOTE),
    "C11": dict(exes=[Exe("c11", ["props/c11.cpp", CLK], WRITE)], technique=MODEL, note=BUSNOTE),
    "C12": dict(exes=two("c12", ["props/c12.cpp", CLK], PASSIVE), technique=MODEL, note=BUSNOTE),
    "C13": dict(exes=two("c13", ["props/c13.cpp", CLK], PASSIVE), technique=MODEL, note=BUSNOTE),
    "C14": dict(exes=rig("c14", "props/c14.cpp"), technique=MODEL, note=RIGNOTE),
    "C15": dict(exes=rig("c15", "props/c15.cpp"), technique=MODEL, note=RIGNOTE),
    "C16": dict(exes=[Exe("c16", ["props/c16.cpp"], JSON, shim=False)], technique=ROUND, note=JSONNOTE),
    "C17": dict(exes=[Exe("c17", ["props/c17.cpp"], JSON, shim=False)] + rig("c17b", "props/c17b.cpp"),
                technique=MUT, note=JSONNOTE),
    "C18": dict(exes=[Exe("c18" + v.lower(), ["props/c18.cpp"], ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp", "dbus/dbushelper.cpp",
                                                             "util.cpp", "pid/tuning.cpp"], config=v) for v in ("V0", "V1")],
                technique=MODEL, note=BUSNOTE),
    "C19": dict(exes=[Exe("c19", ["props/c19.cpp"], ["dbus/dbusutil.cpp"])], technique=MODEL, note=BUSNOTE),
    "C20": dict(exes=[Exe("c20", ["props/c20.cpp", CLK, "rt/redirect.cpp", "rt/loop.cpp"], swampd_sources(), config="V0")],
                technique=HIST, note=DAEMONNOTE),
    "C21": dict(exes=[Exe("c21", ["props/c21.cpp"], ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp", "ipmi/main_ipmi.cpp"])],
                technique=MODEL, note=BUSNOTE),
    "C22": dict(exes=rig("c22", "props/c22.cpp"), technique=MODEL, note=RIGNOTE),
    "C23": dict(exes=[Exe("c23", ["props/c23.cpp", CLK], THERMAL, shim=False)], technique=MODEL, note=UNITNOTE),
    "C24": dict(exes=[Exe("c24", ["props/c24.cpp", CLK], ["failsafeloggers/failsafe_logger.cpp", "failsafeloggers/builder.cpp",
                                                          "failsafeloggers/failsafe_logger_utility.cpp"], shim=True)],
                technique=MODEL, note=UNITNOTE),
    "C25": dict(exes=[Exe("c25" + v.lower(), ["props/c25.cpp", "props/c25b.cpp", CLK, "rt/redirect.cpp", "rt/loop.cpp"], swampd_sources(), config=v)
                      for v in ("V0", "V1")], technique=HIST, note=DAEMONNOTE),
    "C26": dict(exes=[Exe("c26", ["props/c26.cpp"], ["dbus/dbuspassiveredundancy.cpp"])] + rig("c26b", "props/c26b.cpp"), technique=MODEL, note=BUSNOTE),
    "C27": dict(exes=rig("c27", "props/c27.cpp"), technique=MODEL, note=RIGNOTE),
    "C28": dict(exes=[Exe("c28", ["props/c28.cpp"], ["sensors/build_utils.cpp", "sysfs/util.cpp", "sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp"],
                          shim=False)] + rig("c28b", "props/c28b.cpp"), technique=MODEL, note=UNITNOTE),
    "C29": dict(exes=rig("c29", "props/c29.cpp"), technique=DIFF, note=DIFFNOTE),
    "C31": dict(exes=[Exe("c31" + v.lower(), ["props/c31.cpp", CLK, "rt/redirect.cpp"], CORE, config=v) for v in ("V0", "V1")],
                technique=MODEL, note=RIGNOTE),
    "C30": dict(exes=rig("c30", "props/c30.cpp"), technique=DIFF, note=DIFFNOTE),
    "C32": dict(exes=[Exe("c32v0", ["props/c32.cpp", CLK, "rt/redirect.cpp", "rt/loop.cpp"], swampd_sources(), config="V0")],
                technique=HIST, note=DAEMONNOTE),
    "C33": dict(exes=[Exe("c33" + v.lower(), ["props/c33.cpp", CLK, "rt/redirect.cpp", "rt/loop.cpp"], swampd_sources(), config=v)
                      for v in ("V0", "V1")], technique=HIST, note=DAEMONNOTE),
    "C34": dict(exes=[Exe("c34" + v.lower(), ["props/c34.cpp", "props/c34b.cpp", CLK, "rt/redirect.cpp", "rt/loop.cpp"], swampd_sources(), config=v)
                      for v in ("V0", "V1")], technique=HIST, note=DAEMONNOTE),
    "C35": dict(exes=[Exe("c35", ["props/c35.cpp", CLK], CORE)], technique=MODEL, note=BUSNOTE),
}
