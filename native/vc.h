#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
// exceptions are part of the verified behaviour; natively they are caught so that a history can be replayed
#ifdef VC_VERIFY
#define VC_TRY(...) do { __VA_ARGS__; } while (0)
#else
static int vc_flag;
extern "C" int vc_threw() { return vc_flag; }
#define VC_TRY(...) do { vc_flag = 0; try { __VA_ARGS__; } catch (...) { vc_flag = 1; } } while (0)
#endif
using u8 = std::uint8_t;
using sz = std::size_t;
