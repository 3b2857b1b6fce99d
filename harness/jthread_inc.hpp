// The C++17 replacements under test; their spin loops become visible to the scheduler.
#pragma once
#include "sched.hpp"
#include "mc.hpp"
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <type_traits>
#include <utility>
#if defined(__x86_64__)
#include <immintrin.h>
#endif
#ifdef MC_SCHED
#define _mm_pause mc_pause
#endif
#include "JThreadExtras/stop_token.hpp"
#include "JThreadExtras/condition_variable_any2.hpp"
#include "JThreadExtras/jthread.hpp"
