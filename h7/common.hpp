#pragma once
#include <atomic>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

struct Instance {
    virtual ~Instance() = default;
    virtual const char* name() const = 0;
    virtual void initialize(int mode) = 0;
    virtual void finalize() = 0;
    virtual long op(int kind, int a, int b, int c) = 0;
};

constexpr int NOPS = 16;

constexpr int NREG = 8;
Instance* instance0();
Instance* instance1();
Instance* instance2();
Instance* instance3();
Instance* instance4();
Instance* instance5();
Instance* instance6();
Instance* instance7();
