// A zone that only records, for demonstrations of a single controller.
#pragma once
#include "conf.hpp"
#include "interfaces.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"

#include <map>
#include <memory>
#include <string>
#include <vector>
struct Fan : pid_control::Sensor
{
    std::vector<double> written;
    explicit Fan(const std::string& n) : Sensor(n, 0) {}
    pid_control::ReadReturn read() override
    {
        return {};
    }
    void write(double v) override
    {
        written.push_back(v);
    }
    void write(double v, bool, int64_t* w) override
    {
        written.push_back(v);
        if (w)
            *w = 0;
    }
};
struct UnitZone : pid_control::ZoneInterface
{
    std::map<std::string, double> values;
    std::map<std::string, std::unique_ptr<Fan>> fans;
    std::map<std::string, double> set;
    double request = 0, level = 100;
    bool failed = false;
    int64_t getZoneID() const override
    {
        return 0;
    }
    void initializeLog() override {}
    void writeLog(const std::string&) override {}
    pid_control::Sensor* getSensor(const std::string& n) override
    {
        auto& f = fans[n];
        if (!f)
            f = std::make_unique<Fan>(n);
        return f.get();
    }
    std::vector<std::string> getSensorNames() override
    {
        return {};
    }
    void updateFanTelemetry() override {}
    void updateSensors() override {}
    void initializeCache() override {}
    void setOutputCache(std::string_view, const pid_control::ValueCacheEntry&) override {}
    double getCachedValue(const std::string& n) override
    {
        return values.at(n);
    }
    pid_control::ValueCacheEntry getCachedValues(const std::string& n) override
    {
        return {values.at(n), values.at(n)};
    }
    void addSetPoint(double v, const std::string& n) override
    {
        set[n] = v;
    }
    void clearSetPoints() override {}
    void addRPMCeiling(double) override {}
    void clearRPMCeilings() override {}
    void determineMaxSetPointRequest() override {}
    double getMaxSetPointRequest() const override
    {
        return request;
    }
    bool getFailSafeMode() const override
    {
        return failed;
    }
    double getFailSafePercent() override
    {
        return level;
    }
    std::map<std::string, std::pair<std::string, double>> getFailSafeSensors() const override
    {
        return {};
    }
    uint64_t getCycleIntervalTime() const override
    {
        return 100;
    }
    uint64_t getUpdateThermalsCycle() const override
    {
        return 1000;
    }
    bool getManualMode() const override
    {
        return false;
    }
    bool getRedundantWrite() const override
    {
        return false;
    }
    bool getAccSetPoint() const override
    {
        return false;
    }
    void processFans() override {}
    void processThermals() override {}
    void updateThermalPowerDebugInterface(std::string, std::string, double, double) override {}
};
